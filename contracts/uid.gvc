package github.com/l7mp/dcontroller/pkg/object

// ---- identifiers: the hashed text determines kind, namespace and name
uf hashed(string) bool
extern crypto/sha256.Sum256(data) (r)
  note hashed(t) records that the digest of t was computed; nothing else makes it true
  ensures hashed(text(data))

def uidKey(g string, v string, k string, ns string, n string) string = g + "/" + v + "/" + k + "/" + ns + "/" + n
def plainPart(s string) bool = !contains(s, "/")

func NewUID(gvk, namespace, name) (r)
  props C26
  ensures [key] hashed(uidKey(gvk.Group, gvk.Version, gvk.Kind, namespace, name))

