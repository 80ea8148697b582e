def version() -> str:
    return "1.0.2"
