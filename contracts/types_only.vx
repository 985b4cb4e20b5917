[type Token]
[type ParamType]
[verbatim]
text:
  /*@code*/
