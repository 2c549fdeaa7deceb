"""The Node module of a configuration, run on states and calls of q."""
import base64, re
import dataref as dr, node, q


def enc(f, v):
    if v is None:
        return None
    if f.type == "enum":
        return {"s": str(v)}
    return encdb(v)


def encdb(v):
    if v is None:
        return None
    if isinstance(v, int):
        return {"i": str(v)}
    if isinstance(v, float):
        return {"r": v}
    if isinstance(v, bytes):
        return {"b": v.hex()}
    return {"s": v}


def salt(s):
    return re.sub(r"^\$2b\$(\d+)\$\d\$", r"$2b$\1$0$", s)


class Bad(Exception):
    pass


def num(r):
    return float(r["r"]) if isinstance(r["r"], str) else -0.0 if r.get("z") else r["r"]


def dec(f, v):
    """A value of a result as documented for the type of the field."""
    t = f.type
    if v is None:
        if not f.null:
            raise Bad("%s is null" % f.name)
        return None
    if t in ("int", "bit", "bits", "date", "epoch"):
        if "i" not in v:
            raise Bad("%s (%s) is not a bigint: %r" % (f.name, t, v))
        return int(v["i"])
    if t == "enum":
        if "s" not in v or not re.fullmatch("-?[0-9]+", v["s"]):
            raise Bad("%s is not a value of an enumeration: %r" % (f.name, v))
        return int(v["s"])
    if t == "real":
        if "r" not in v:
            raise Bad("%s is not a number: %r" % (f.name, v))
        return float(num(v))
    if t == "blob":
        if "b" not in v:
            raise Bad("%s is not a Buffer: %r" % (f.name, v))
        return bytes.fromhex(v["b"])
    if "s" not in v:
        raise Bad("%s is not a string: %r" % (f.name, v))
    return salt(v["s"]) if t == "password" else v["s"]


def decdb(v):
    if v is None:
        return None
    if "i" in v:
        return int(v["i"])
    if "r" in v:
        return float(num(v))
    if "b" in v:
        return bytes.fromhex(v["b"])
    return salt(v["s"])


def obj(cfg, s, d):
    if "o" not in d:
        raise Bad("not an object: %r" % d)
    d = d["o"]
    if set(d) != set(s.fields):
        raise Bad("has %s instead of %s" % (sorted(d), sorted(s.fields)))
    out = {}
    for f in s.fields.values():
        if f.type == "struct":
            if d[f.name] is None:
                if not s.fields[f.sub].null:
                    raise Bad("%s is null" % f.name)
                out[f.name] = None
            else:
                out[f.name] = obj(cfg, cfg.target(f), d[f.name])
        else:
            out[f.name] = dec(f, d[f.name])
    return out


def hidden(cfg, s, f, role):
    """Is the field not exported in the role (None: no roles)?"""
    if f.noexport or f.type == "password":
        return True
    if role is None:
        return False
    return cfg.holds(role, cfg.noexport_roles(s, f))


def export(cfg, s, o, role):
    """What the object is exported as."""
    out = {}
    for f in s.fields.values():
        v = o[f.name]
        if hidden(cfg, s, f, role):
            continue
        if v is None:
            out[f.name] = None
        elif f.type == "struct":
            out[f.name] = export(cfg, cfg.target(f), v, role)
        elif f.type == "real":
            out[f.name] = v
        elif f.type == "blob":
            out[f.name] = base64.b64encode(v).decode()
        elif isinstance(v, int):
            out[f.name] = str(v)
        else:
            out[f.name] = v
    return out


def same(a, b):
    if isinstance(b, float):
        # ort-nodejs(1) does not say whether decimals are numbers
        try:
            return float(a) == b
        except (TypeError, ValueError):
            return False
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def result(cfg, op, r, role=None, exp=True):
    """A result of the harness for q.judge; also what is wrong with exports."""
    out = {}
    for k in ("missing", "abort", "inrole"):
        if k in r:
            out[k] = r[k]
    if "error" in r:
        out["error"], out["code"] = r["error"], r.get("code")
    if "db" in r:
        out["db"] = {n: [dict(zip([f.name for f in dr.cols(cfg.structs[n])], map(decdb, row))) for row in rows]
                     for n, rows in r["db"].items()}
    if set(out) - {"db"}:
        return out
    s = op.result()

    def one(x):
        if "d" not in x:
            raise Bad("a result is not an object: %r" % x)
        o = obj(cfg, s, x["d"])
        if exp:
            if "x" in x:
                raise Bad("export() fails: %s" % x["x"])
            want = export(cfg, s, o, role)
            if not same(x["e"], want):
                raise Bad("export() of %r is %r, expected %r" % (o, x["e"], want))
        return o
    try:
        if op.kind in ("list", "iterate"):
            if "l" not in r:
                raise Bad("not an array: %r" % r)
            out["rows"] = [one(x) for x in r["l"]]
        elif op.kind == "search":
            out["row"] = None if "v" in r and r["v"] is None else one(r)
        else:
            v = r.get("v", 0)
            if op.kind in ("count", "insert"):
                if not isinstance(v, dict) or "i" not in v:
                    raise Bad("not a bigint: %r" % (r,))
                out["value"] = int(v["i"])
            elif op.kind == "update":
                if not isinstance(v, dict) or "t" not in v:
                    raise Bad("not a boolean: %r" % (r,))
                out["value"] = v["t"]
    except Bad as e:
        out["type"] = str(e)
    return out


def load(env, text, args=()):
    """Generate and load the module; the names of its functions or an error."""
    r = env.run("ort-nodejs", list(args), [("a.ort", text)] if False else [], text.encode())
    if r.status:
        return None, "ort-nodejs fails: %r" % r.err[-300:]
    return r.text, None


def module(env, cfg, text, args=()):
    src, err = load(env, text, args)
    if err:
        return None, None, err
    sql = env.run("ort-sql", [], [], text.encode())
    if sql.status:
        return None, None, "ort-sql fails: %r" % sql.err[-300:]
    n = node.get(env, "ortnode.js")
    m = n.call("mod", src=src, sql=sql.text, tables=dr.tables(cfg))
    if "error" in m:
        return None, None, "the module does not load: %s" % m["error"][:600]
    if m["diags"]:
        return None, None, "the module is not TypeScript: %s" % m["diags"][:3]
    return n, m["fns"], None


def encstate(cfg, db):
    return {n: [[encdb(r[f.name]) for f in dr.cols(cfg.structs[n])] for r in db[n]] for n in db}


def enccall(op, args, role=None):
    a = []
    for (f, how), v in zip(op.params, args):
        a.append(enc(f, v))
    c = {"fn": op.name, "args": a}
    if op.kind == "iterate":
        c["iter"] = 1
    if op.write:
        c["write"] = 1
    if role is not None:
        c["role"] = role
    return c


def explore(env, cfg, states, calls, exp=True):
    n = node.get(env, "ortnode.js")
    r = n.call("explore", timeout=300, states=[encstate(cfg, db) for db in states], calls=calls, exp=exp)
    if "error" in r:
        raise Exception(r["error"])
    return r["out"]
