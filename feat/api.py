"""The public interface of one build of the library, read from rustdoc's JSON, as a set of texts that can be compared
between builds of the same source: where every item can be reached, the signature of every function, the bounds of
every implementation. Names of private items, documentation, order and positions in the source do not appear."""
import json, os, subprocess

FEATURE_CRATES = {"std": {"std"}, "rand": {"rand", "rand_core"}, "approx": {"approx"}}

def document(manifest, target, features):
    """-> (parsed JSON or None, error text)"""
    args = ["cargo", "+nightly", "rustdoc", "--offline", "--quiet", "--manifest-path", manifest, "--lib", "--no-default-features", "-j", "2"]
    if features:
        args += ["--features", ",".join(features)]
    args += ["--", "-Zunstable-options", "--output-format", "json"]
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTUP_TOOLCHAIN")}
    r = subprocess.run(args, env=dict(env, CARGO_TARGET_DIR=target), capture_output=True, text=True)
    p = os.path.join(target, "doc", "vecmat.json")
    if r.returncode or not os.path.exists(p):
        return None, r.stderr
    return json.load(open(p)), ""

class Api:
    def __init__(self, doc):
        self.doc, self.index, self.paths = doc, doc["index"], doc["paths"]
        self.items = {}      # text -> (crates mentioned, local types mentioned)
        self.rel = {}        # local type -> crates of the traits implemented for it
        self.own = {}        # local type -> text of its definition
        self.seen = set()
        self.walk(doc["root"], "vecmat", 0)
        for i in self.index.values():
            if i["crate_id"] == 0 and "impl" in i["inner"]:
                self.impl(i)

    def item(self, i):
        return self.index.get(str(i))

    def names(self, value, crates, types):
        """value with every reference to an item replaced by the item's own name"""
        if isinstance(value, dict):
            if "id" in value and ("path" in value or "name" in value) and isinstance(value["id"], int):
                p = self.paths.get(str(value["id"]))
                name = value.get("path") or value.get("name")
                if p:
                    crates.add(p["path"][0])
                    name = p["path"][-1]
                    if p["path"][0] == "vecmat":
                        types.add(name)
                return [name, self.names(value.get("args"), crates, types)]
            return {k: self.names(v, crates, types) for k, v in sorted(value.items()) if k not in ("id", "docs", "span", "attrs", "links", "deprecation", "items", "provided_trait_methods", "implementations", "impls")}
        if isinstance(value, list):
            return [self.names(v, crates, types) for v in value]
        return value

    def add(self, head, value, crates=(), types=(), label=None, target=None):
        c, t = set(crates), set(types)
        text = head + (" " + json.dumps(self.names(value, c, t), sort_keys=True) if value is not None else "")
        self.items[text] = (c, t, label or head, target)
        return text

    def walk(self, ident, path, depth):
        m = self.item(ident)
        if m is None or depth > 8:
            return
        for c in m["inner"]["module"]["items"]:
            self.at(c, path, depth)

    def at(self, ident, path, depth):
        i = self.item(ident)
        if i is None:
            return
        (kind, inner), = i["inner"].items()
        if kind == "use":
            target = self.item(inner["id"]) if inner["id"] is not None else None
            if inner["is_glob"]:
                if target and "module" in target["inner"]:
                    self.walk(inner["id"], path, depth + 1)
                elif target and "enum" in target["inner"]:
                    for v in target["inner"]["enum"]["variants"]:
                        self.at(v, path, depth + 1)
                return
            here = path + "::" + inner["name"]
            if target and "module" in target["inner"]:
                self.walk(inner["id"], here, depth + 1)
                return
            p = self.paths.get(str(inner["id"]))
            if p and p["path"][0] != "vecmat" or not target:
                self.add("%s is %s" % (here, p["path"][-1] if p else inner["name"]), None, [p["path"][0]] if p else [], target=p and tuple(p["path"]))
                return
            self.define(inner["id"], here)
            return
        here = path + "::" + (i["name"] or "?")
        if kind == "module":
            self.walk(ident, here, depth + 1)
        elif kind not in ("impl", "extern_crate"):
            self.define(ident, here)

    def define(self, ident, here):
        i = self.item(ident)
        (kind, inner), = i["inner"].items()
        local = [i["name"]] if kind in ("struct", "enum", "union", "trait", "type_alias") else []
        self.add("%s is %s %s" % (here, kind, i["name"]), None, [], local)
        if ident in self.seen:
            return
        self.seen.add(ident)
        if kind in ("struct", "union"):
            self.own[i["name"]] = self.add("struct %s" % i["name"], inner["generics"], [], local)
            k = inner.get("kind")
            fields = []
            if isinstance(k, dict) and "plain" in k:
                fields = k["plain"]["fields"]
            elif isinstance(k, dict) and "tuple" in k:
                fields = [f for f in k["tuple"] if f is not None]
            for f in fields:
                f = self.item(f)
                if f and f["visibility"] == "public":
                    self.add("field %s.%s" % (i["name"], f["name"]), f["inner"], [], local)
        elif kind == "enum":
            self.own[i["name"]] = self.add("enum %s" % i["name"], inner["generics"], [], local)
            for v in inner["variants"]:
                v = self.item(v)
                if v:
                    self.add("variant %s::%s" % (i["name"], v["name"]), None, [], local)
        elif kind == "trait":
            self.own[i["name"]] = self.add("trait %s" % i["name"], [inner["generics"], inner["bounds"], inner["is_unsafe"]], [], local)
            for m in inner["items"]:
                m = self.item(m)
                if m:
                    self.member("trait %s" % i["name"], m, [], local, i["name"])
        elif kind != "macro":
            self.add("%s %s" % (kind, i["name"]), inner, [], local)

    def member(self, head, m, crates, types, label):
        (kind, inner), = m["inner"].items()
        if kind == "function":
            inner = {"sig": {"inputs": [t for _, t in inner["sig"]["inputs"]], "output": inner["sig"]["output"]},
                     "generics": inner["generics"], "header": inner["header"], "body": inner["has_body"]}
        elif kind == "assoc_const":
            inner = {"type": inner["type"]}
        self.add("%s :: %s %s" % (head, kind, m["name"]), inner, crates, types, "%s::%s" % (label, m["name"]))

    def impl(self, i):
        im = i["inner"]["impl"]
        if im["is_synthetic"] or im["blanket_impl"]:
            return
        crates, types = set(), set()
        tr = im["trait"]
        sig = self.names([im["generics"], tr, im["for"], im["is_negative"]], crates, types)
        label = flat(sig[2]) if not tr else "impl %s for %s" % (flat(sig[1]), flat(sig[2]))
        head = "impl " + json.dumps(sig, sort_keys=True)
        if tr or not im["items"]:
            self.items[head] = (crates, types, label, None)
        if tr:
            f = im["for"].get("resolved_path") if isinstance(im["for"], dict) else None
            p = f and self.paths.get(str(f["id"]))
            if p and p["path"][0] == "vecmat":
                t = self.paths.get(str(tr["id"]))
                self.rel.setdefault(p["path"][-1], set()).add(t["path"][0] if t else "?")
        for m in im["items"]:
            m = self.item(m)
            if m is None:
                continue
            if tr:                      # the trait says what there is; whether a default is used does not matter
                if "assoc_type" in m["inner"] or "assoc_const" in m["inner"]:
                    self.member(head, m, crates, types, label)
            else:
                self.member(head, m, crates, types, label)

def flat(v):
    """A short text for a type, for messages only."""
    if isinstance(v, dict):
        return " ".join(filter(None, (("&mut" if v.get("is_mutable") else "&") + flat(v.get("type")),) if "is_mutable" in v and "type" in v else [flat(x) for k, x in v.items() if k not in ("constraints", "is_literal", "is_mutable")]))
    if isinstance(v, list):
        return " ".join(filter(None, (flat(x) for x in v)))
    return v if isinstance(v, str) else ""

def effective(manifest, features):
    """The features that these ones bring with them, themselves included."""
    r = subprocess.run(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path", manifest], capture_output=True, text=True)
    p = [p for p in json.loads(r.stdout)["packages"] if p["name"] == "vecmat"][0]
    optional = {d["rename"] or d["name"] for d in p["dependencies"] if d["optional"]}
    todo, done = list(features), set()
    while todo:
        f = todo.pop()
        if f in done:
            continue
        done.add(f)
        for x in p["features"].get(f, []):
            x = x[4:] if x.startswith("dep:") else x
            if "/" in x:
                d = x.split("/")[0]
                if not d.endswith("?") and d in optional:
                    todo.append(d)
            else:
                todo.append(x)
    return done

def compare(a, fa, b, fb):
    """[(item, features with it, features without it)]: what one build offers and the other does not, other than the
    operations of the features in which they differ: those that speak of std, rand or approx, or of a type that exists
    only with the feature and implements one of its traits, or of something another crate has only with the feature."""
    out = []
    for x, y, fx, fy in ((a, b, fa, fb), (b, a, fb, fa)):
        extra = fx - fy
        crates = set().union(*[FEATURE_CRATES.get(f, set()) for f in extra])
        own = {t for t, c in x.rel.items() if c & crates and t not in y.own}
        known = {tuple(p["path"]) for p in y.paths.values()}
        for text, (c, t, label, target) in x.items.items():
            if text in y.items or c & crates or t & own or (extra and target and target not in known):
                continue
            out.append((label, fx, fy))
    return out
