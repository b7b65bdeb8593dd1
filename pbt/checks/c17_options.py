"""C17: options: documented precedence, unknown names, frozen afterwards."""
import copy
import math
import os

import numpy as np

from pbt import boot, gen
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C17"
RULE = (
    "Cases: dimension, a set of user options (dictionary), a generated "
    "options file (absolute or relative path), noise mode set in either, "
    "unknown names, then sequences of mutation attempts. Non-trivial: at "
    "least one option set by the user, or at least one mutation attempted."
)
ASSUMPTIONS = [
    "an option name declared in the user's own options file counts as known "
    "(the existing tests rely on it)",
    "values that are functions are compared by their results, acquisition "
    "functions by class",
]

# name -> expressions (valid in a file; evaluated for the dictionary)
POOL = {
    "display": ['"off"'],
    "max_iter": ["7", "3*D", "50 + D"],
    "max_fun_evals": ["33", "10*D", "501"],
    "fun_evals_per_iter": ["3", "D + 1"],
    "tol_stable_count": ["41", "7*D"],
    "min_final_components": ["0", "12"],
    "fun_eval_start": ["np.maximum(D, 7)", "15"],
    "sgd_step_size": ["0.01"],
    "ns_search": ["2**7", "100"],
    "ns_ent": ["lambda K : 10 * K", "50"],
    "search_acq_fcn": ["[AcqFcnVanilla()]", "[AcqFcnLog(), AcqFcn()]",
                       "[AcqFcnIMIQR()]"],
    "active_sample_gp_update": ["True", "False"],
    "active_sample_vp_update": ["True", "False"],
    "gp_mean_fun": ['"const"', '"zero"', '"negquad"'],
    "warmup": ["False", "True"],
    "tol_sd": ["0.3"],
    "k_warmup": ["3", "1"],
    "bounded_transform": ['"logit"', '"probit"', '"student4"'],
    "min_iter": ["2*D"],
    "hpd_frac": ["0.5"],
    "tol_weight": ["0", "1e-3"],
    "cache_size": ["17"],
    "uncertainty_handling": ["[1]"],
    "gp_length_prior_mean": ["np.sqrt(D)"],
    "warp_rotoscaling": ["False", "True"],
    "annealed_gp_mean": ["lambda N,NMAX: 1"],
}
NOISE = {
    "max_fun_evals": lambda v: math.ceil(v * 1.5),
    "tol_stable_count": lambda v: math.ceil(v * 1.5),
    "active_sample_gp_update": lambda v: True,
    "active_sample_vp_update": lambda v: True,
}


def namespace(D):
    ns = {"np": np, "D": D}
    exec("from pyvbmc.acquisition_functions import *", ns)
    return ns


def read_ini(path):
    """Independent line-based reader: {name: expression}."""
    out = {}
    with open(path, encoding="utf-8") as f:
        for line in f:
            s = line.strip()
            if not s or s[0] in "#;[" or "=" not in s:
                continue
            k, v = s.split("=", 1)
            out[k.strip()] = v.strip()
    return out


def default_exprs():
    d = os.path.join(boot.REPO, "pyvbmc", "vbmc", "option_configs")
    out = read_ini(os.path.join(d, "basic_vbmc_options.ini"))
    out.update(read_ini(os.path.join(d, "advanced_vbmc_options.ini")))
    return out


def same(a, b):
    if callable(a) and callable(b) and not hasattr(a, "acq_info"):
        if type(a) is not type(b):
            return False
        for k in range(1, 6):
            try:
                r = a(k)
            except TypeError:
                r = a(k, 10)
                if r != b(k, 10):
                    return False
                continue
            if r != b(k):
                return False
        return True
    if isinstance(a, (list, tuple)):
        return (
            type(a) is type(b)
            and len(a) == len(b)
            and all(same(x, y) for x, y in zip(a, b))
        )
    if hasattr(a, "acq_info"):
        return type(a) is type(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, float) and isinstance(b, float) and a != a:
        return b != b
    return type(a) is type(b) and a == b or (
        np.isscalar(a) and np.isscalar(b) and not isinstance(a, (str, bool))
        and not isinstance(b, (str, bool)) and a == b
    )


def choice_st():
    names = sorted(POOL)
    return st.lists(
        st.tuples(st.integers(0, len(names) - 1), st.integers(0, 2)).map(
            lambda p: [names[p[0]], p[1]]
        ),
        max_size=6,
        unique_by=lambda p: p[0],
    )


def prec_case():
    tri = st.sampled_from([None, None, True, False])
    return gen.obj(
        D=st.integers(1, 5),
        user=choice_st(),
        file=st.one_of(st.none(), choice_st()),
        noise_user=tri,
        noise_file=tri,
        unknown=st.sampled_from(
            ["", "", "", "user", "user2", "file", "both", "missing"]
        ),
        path=st.sampled_from(["str", "path", "relative"]),
        none=st.booleans(),
    )


def write_ini(name, rows):
    with open(name, "w", encoding="utf-8") as f:
        f.write("[UserOptions]\n")
        for i, (k, v) in enumerate(rows):
            if i % 2 == 0:
                f.write(f"# about {k}\n")
            f.write(f"{k} = {v}\n")


def make(D, options, path):
    from pyvbmc import VBMC

    return VBMC(
        lambda x: (0.0, 1.0),
        np.zeros((1, D)),
        None,
        None,
        -np.ones((1, D)),
        np.ones((1, D)),
        options=options,
        options_path=path,
    )


def precedence(c, t):
    D = c["D"]
    ns = namespace(D)

    def ev(e):
        return eval(e, dict(ns))

    user, filed = {}, {}
    for k, i in c["user"]:
        user[k] = ev(POOL[k][i % len(POOL[k])])
    rows = []
    for k, i in c["file"] or []:
        rows.append((k, POOL[k][(i + 1) % len(POOL[k])]))
    if c["noise_user"] is not None:
        user["specify_target_noise"] = c["noise_user"]
    has_file = c["file"] is not None
    if has_file and c["noise_file"] is not None:
        rows.append(("specify_target_noise", str(c["noise_file"])))
    bad = ""
    if c["unknown"] in ("user", "user2"):
        bad = "maximum_iter" if c["unknown"] == "user" else "Max_iter"
        user[bad] = 5
    elif c["unknown"] in ("file", "both") and has_file:
        rows.append(("my_own_name", "3 * D"))
        if c["unknown"] == "both":
            user["my_own_name"] = "mine"
    filed = {k: ev(v) for k, v in rows}
    if has_file and not rows:
        t.discard()
    path = None
    if has_file:
        name = os.path.abspath("user.ini")
        write_ini(name, rows)
        path = name
        if c["path"] == "path":
            from pathlib import Path

            path = Path(name)
        elif c["path"] == "relative":
            path = os.path.relpath(
                name, os.path.join(boot.REPO, "pyvbmc", "vbmc")
            )
    if c["unknown"] == "missing":
        t.nontrivial()
        t.raises(
            ValueError,
            lambda: make(D, user, os.path.abspath("nothing.ini")),
            "missing options file",
        )
        return
    t.nontrivial(bool(user) or bool(filed))
    arg = dict(user) if user or not c["none"] else None
    keep = dict(user)
    if bad:
        t.label("unknown name")
        t.raises(
            ValueError, lambda: make(D, arg, path), f"unknown name {bad}"
        )
        t.check(arg == keep, "user's dictionary modified")
        return
    v = make(D, arg, path)
    o = v.options
    if arg is not None:
        t.check(
            list(arg) == list(keep)
            and all(arg[k] is keep[k] for k in keep),
            "user's dictionary modified",
        )
        arg["max_iter"] = 987654
        arg["no_such"] = 1
        t.check(
            "no_such" not in o and o["max_iter"] != 987654,
            "options share the user's dictionary",
        )
    want = {k: ev(e) for k, e in default_exprs().items()}
    known = set(want)
    want.update(filed)
    want.update(user)
    if want["specify_target_noise"]:
        for k, f in NOISE.items():
            if k not in filed and k not in user:
                want[k] = f(want[k])
        if "search_acq_fcn" not in filed and "search_acq_fcn" not in user:
            want["search_acq_fcn"] = ev("[AcqFcnVIQR()]")
        t.label("noisy")
    got = {k: o[k] for k in o if k != "useroptions"}
    t.check(
        set(got) == set(want),
        lambda: f"options differ: {sorted(set(got) ^ set(want))}",
    )
    for k in sorted(want):
        t.check(
            same(got[k], want[k]),
            lambda k=k: f"option {k} is {got[k]!r}, expected {want[k]!r} "
            f"(user {sorted(user)}, file {sorted(filed)})",
        )
        t.check(
            o.get(k) is got[k] and k in o, f"get({k}) disagrees with []"
        )
    t.check(len(o) == len(list(o)), "length and iteration disagree")
    t.check(known <= set(got), "a documented option has no value")
    txt = str(o)
    for k in user:
        t.check(k in txt, f"user option {k} not shown")
    if has_file:
        os.remove(name)


# -- frozen ------------------------------------------------------------------

OPS = ["set", "setnew", "del", "update", "updatekw", "pop", "popnew",
       "popitem", "clear", "setdefault", "setdefault_old", "ior", "copy",
       "deepcopy", "or", "read"]


def frozen_case():
    return gen.obj(
        D=st.integers(1, 3),
        user=choice_st(),
        ops=st.lists(
            st.tuples(st.sampled_from(OPS), st.integers(0, 25)).map(list),
            min_size=1,
            max_size=8,
        ),
    )


def contents(v):
    """Attributes of the objects held by a value, as text."""
    if isinstance(v, (list, tuple, set)):
        return [contents(x) for x in v]
    if hasattr(v, "acq_info"):
        return [type(v).__name__, repr(sorted(vars(v).items()))]
    return repr(v)


def scribble(v):
    """Change everything that can be changed inside a value."""
    if isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribble")
    elif isinstance(v, set):
        v.add("scribble")
    elif isinstance(v, dict):
        v["scribble"] = 1
    elif isinstance(v, np.ndarray):
        v[...] = 0
    elif hasattr(v, "acq_info"):
        v.acq_info["scribble"] = 1


def independent(o, q, t):
    """Nothing done inside a deep copy reaches the original."""
    before = {n: contents(o[n]) for n in o}
    for n in q:
        scribble(q[n])
    for n in before:
        t.check(
            contents(o[n]) == before[n],
            f"a change inside a deep copy altered the option {n}",
        )


def frozen(c, t):
    ns = namespace(c["D"])
    user = {
        k: eval(POOL[k][i % len(POOL[k])], dict(ns)) for k, i in c["user"]
    }
    o = make(c["D"], user, None).options
    snap = {k: o[k] for k in o}
    ref = copy.deepcopy(snap)
    names = sorted(POOL)
    t.nontrivial()

    def intact(what):
        now = {k: o[k] for k in o}
        t.check(
            set(now) == set(snap)
            and all(now[k] is snap[k] for k in now)
            and all(
                same(now[k], ref[k]) for k in now if k != "useroptions"
            )
            and now["useroptions"] == ref["useroptions"],
            f"options changed after construction by {what}",
        )

    for op, i in c["ops"]:
        k = names[i % len(names)]

        def attempt():
            nonlocal o
            if op == "set":
                o[k] = 12345
            elif op == "setnew":
                o["brand_new"] = 1
            elif op == "del":
                del o[k]
            elif op == "update":
                o.update({k: 12345})
            elif op == "updatekw":
                o.update(max_iter=12345)
            elif op == "pop":
                o.pop(k)
            elif op == "popnew":
                o.pop("brand_new", None)
            elif op == "popitem":
                o.popitem()
            elif op == "clear":
                o.clear()
            elif op == "setdefault":
                o.setdefault("brand_new", 1)
            elif op == "setdefault_old":
                return o.setdefault(k, 12345)
            elif op == "ior":
                me = o
                me |= {k: 12345}
            elif op == "or":
                r = o | {k: 12345}
                return r
            elif op == "read":
                str(o), repr(o), o.get(k), list(o.items()), o.keys()
            elif op in ("copy", "deepcopy"):
                q = (copy.copy if op == "copy" else copy.deepcopy)(o)
                t.check(
                    set(q) == set(o)
                    and all(
                        same(q[n], o[n]) for n in q if n != "useroptions"
                    ),
                    f"{op} differs from the original",
                )
                if op == "deepcopy":
                    independent(o, q, t)
                q[k] = 12345
            return None

        must = op not in (
            "popnew", "setdefault_old", "or", "read",
        )
        if must:
            t.raises(
                (AttributeError, TypeError), attempt,
                f"mutation {op} of frozen options",
            )
        else:
            attempt()
        intact(op)


# -- the Options class with arbitrary files ------------------------------------


def files_case():
    key = st.sampled_from(["alpha", "beta", "Gamma", "delta_2", "eps"])
    val = st.sampled_from(
        ["1", "2 * D", '"text"', "[1, 2]", "lambda K : K + 1", "np.inf",
         "None", "D ** 2", "True", "1e-3"]
    )
    rows = st.lists(
        st.tuples(key, val).map(list), min_size=1, max_size=5,
        unique_by=lambda r: r[0],
    )
    return gen.obj(
        D=st.integers(1, 6),
        files=st.lists(rows, min_size=1, max_size=3),
        user=st.dictionaries(key, st.integers(-5, 5), max_size=3),
        extra=st.sampled_from(["", "", "zeta"]),
        validate=st.integers(0, 3),
    )


def files(c, t):
    from pyvbmc.vbmc import Options

    D = c["D"]
    paths = []
    for i, rows in enumerate(c["files"]):
        p = os.path.abspath(f"opt{i}.ini")
        write_ini(p, rows)
        paths.append(p)
    user = dict(c["user"])
    if c["extra"]:
        user[c["extra"]] = 1
    keep = dict(user)
    o = Options(paths[0], {"D": D}, user_options=user)
    for p in paths[1:]:
        o.load_options_file(p, {"D": D})
    want = {}
    for rows in c["files"]:
        want.update({k: eval(v, {"np": np, "D": D}) for k, v in rows})
    want.update(user)
    t.nontrivial(len(c["files"]) > 1 or bool(user))
    got = {k: o[k] for k in o if k != "useroptions"}
    t.check(set(got) == set(want), "names differ")
    for k in want:
        t.check(
            same(got[k], want[k]),
            lambda k=k: f"{k} is {got[k]!r}, expected {want[k]!r}",
        )
    t.check(user == keep, "user's dictionary modified")
    t.check(o["useroptions"] == set(user), "record of user options")
    K = o.eval("alpha", {"K": 3}) if "alpha" in o else None
    if "alpha" in o:
        t.check(
            K == (want["alpha"](3) if callable(want["alpha"])
                  else want["alpha"]),
            "evaluated option",
        )
    n = c["validate"] % (len(paths) + 1)
    sel = paths[:n] if n else paths
    names = {k for r in c["files"][: len(sel)] for k, _ in r}
    if set(want) <= names:
        o.validate_option_names(sel)
        t.raises(
            AttributeError, lambda: o.__setitem__("alpha", 2), "frozen"
        )
    else:
        t.raises(
            ValueError, lambda: o.validate_option_names(sel), "unknown name"
        )
    q = Options.init_from_existing_options(paths[0], {"D": D}, o)
    w2 = {k: eval(v, {"np": np, "D": D}) for k, v in c["files"][0]}
    w2.update({k: user[k] for k in user})
    t.check(
        {k for k in q if k != "useroptions"} == set(w2)
        and all(same(q[k], w2[k]) for k in w2),
        "options from existing options",
    )
    for p in paths:
        os.remove(p)


PROPS = [
    Prop("precedence", prec_case, precedence, 1600),
    Prop("frozen", frozen_case, frozen, 1200),
    Prop("files", files_case, files, 1500),
]
