TARGET = "scipp.utils.to_string"
def value_to_string(val, precision=3, max_str_len=80):
    if not isinstance(val, float) or val == 0:
        text = str(val)
        return text if len(text) <= max_str_len else text[:max_str_len - 3] + '...'
    if abs(val) >= 10.0 ** (precision + 1) or abs(val) <= 10.0 ** (-precision - 1):
        return f'{val:.{precision}e}'
    text = str(val)
    return text if len(text) <= precision + 2 + (text[0] == '-') else f'{val:.{precision}f}'
