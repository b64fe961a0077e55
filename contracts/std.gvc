package strings

// contracts assumed of the standard library
extern strings.TrimPrefix(s, p) (r)
  ensures prefixof(p, s) ==> r == substr(s, len(p), len(s) - len(p))
  ensures !prefixof(p, s) ==> r == s

extern strings.TrimSuffix(s, p) (r)
  ensures suffixof(p, s) ==> r == substr(s, 0, len(s) - len(p)) && s == r + p
  ensures !suffixof(p, s) ==> r == s

extern strings.SplitN(s, sep, n) (r)
  ensures sep != "" && n == 2 && contains(s, sep) ==> len(r) == 2 && r[0] == substr(s, 0, indexof(s, sep, 0)) && r[1] == substr(s, indexof(s, sep, 0) + len(sep), len(s) - indexof(s, sep, 0) - len(sep))
  ensures sep != "" && n == 2 && !contains(s, sep) ==> len(r) == 1 && r[0] == s
  ensures fresh(r)
