from pint import DimensionalityError, UndefinedUnitError, PintError, PintTypeError
