# properties without a check, and why
NA = {}
