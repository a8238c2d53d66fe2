import rows


def run(check):
    rows.run(check, "C15")
