from lmfit import Parameter, Parameters
