[type ParamType]
[verbatim]
text:
  /*@code*/
