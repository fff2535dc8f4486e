"""Model of sys: limits of floats."""


class _FloatInfo:
    max = 1.7976931348623157e308
    min = 2.2250738585072014e-308
    epsilon = 2.220446049250313e-16
    dig = 15


float_info = _FloatInfo()
maxsize = 9223372036854775807
