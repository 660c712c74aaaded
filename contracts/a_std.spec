package fmt

extern func fmt.Errorf(format, a) (r)
  trusted "standard library: never nil"
  ensures r != nil
