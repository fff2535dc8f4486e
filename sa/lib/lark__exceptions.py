from lark import LarkError, GrammarError, ConfigurationError, UnexpectedInput, ParseError, LexError, UnexpectedToken, UnexpectedCharacters, UnexpectedEOF, VisitError
