"""Stand-in: keeps what is drawn instead of drawing it."""
rcParams = {}
rcParamsDefault = {}
