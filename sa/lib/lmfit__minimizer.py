from lmfit import MinimizerResult, minimize
