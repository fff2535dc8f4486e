from lark import Transformer, Transformer_InPlace, Transformer_NonRecursive, v_args, VisitError
