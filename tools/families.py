"""The validator configurations under test: for every family, every configuration
as the record of options the specification reads, and the Rust declaration that
asks the real library for it."""
import random
import re
import struct
from itertools import product


class Fam:
    def __init__(self, name, configs, oracle="no_oracle", prelude="", kinds=("text",)):
        self.name = name
        self.configs = configs      # list of (cfg dict, rust item, session expression)
        self.oracle = oracle
        self.prelude = prelude
        self.kinds = kinds          # every text input is submitted as each of these kinds

    def only(self, keep):
        """The configurations for which keep holds."""
        return Fam(self.name, [c for c in self.configs if keep(c[0])], self.oracle, self.prelude, self.kinds)

    def lite(self, most):
        """Few configurations which together have every pair of option values, as far as that many can."""
        def pairs(cfg):
            items = [(k, repr(v)) for k, v in cfg.items()]
            return {(a, b) for i, a in enumerate(items) for b in items[i:]}
        left, todo = [], list(self.configs)
        seen = set()
        while todo and len(left) < most:
            best = max(todo, key=lambda c: len(pairs(c[0]) - seen))
            if not pairs(best[0]) - seen:
                # every pair is there: the rest at random
                random.Random(7).shuffle(todo)
                left += todo[:most - len(left)]
                break
            seen |= pairs(best[0])
            left.append(best)
            todo.remove(best)
        return Fam(self.name, [c for c in self.configs if c in left], self.oracle, self.prelude, self.kinds)

    def terse(self, most):
        """The configurations which leave most to the defaults."""
        def said(c):
            return len(re.search(r"#\[validator\((.*)\)\]", c[1]).group(1))
        left = sorted(self.configs, key=said)[:most]
        return Fam(self.name, [c for c in self.configs if c in left], self.oracle, self.prelude, self.kinds)

    def table(self):
        return [c[0] for c in self.configs]

    def rust(self):
        out = ["#![allow(unused, non_camel_case_types)]", "use super::*;", self.prelude]
        for n, (cfg, item, session) in enumerate(self.configs):
            out.append(item)
        out.append("pub fn family() -> Family {\n    Family { name: \"%s\", oracle: %s, configs: vec![" % (self.name, self.oracle))
        for n, (cfg, item, session) in enumerate(self.configs):
            out.append("        %s," % session)
        out.append("    ] }\n}")
        return "\n".join(out)


TRI = ["Must", "Allow", "Disallow"]


def byte(c):
    return "b'%s'" % c


# ---------------------------------------------------------------- MAC address, UUID
def hexid(name, inner, default_sep, digits, trait_fn):
    configs = []

    def add(cfg, attrs):
        n = len(configs)
        item = f"""
#[derive(Validator)]
#[validator({name}{attrs})]
pub struct S{n}(pub {inner});
impl Proj for S{n} {{
    fn proj(&self) -> Value {{ json!({{"digits": cps(&format!("{{:0{digits}x}}", self.0))}}) }}
    fn emit(&self) -> Option<String> {{ Some(self.{trait_fn}()) }}
}}"""
        configs.append((cfg, item, f"|i| str_session::<S{n}>(&i.text())"))

    for case, sep, sc in product(["Any", "Upper", "Lower"], TRI, ":-"):
        if sep == "Disallow":
            if sc != default_sep:
                continue
            attr = "separator(Disallow)"
        else:
            attr = f"separator({sep}(b'{sc}'))"
        add({"case": case, "sep": sep, "sc": ord(sc)}, f"(case({case}), {attr})")
    for sc in "._G":
        add({"case": "Any", "sep": "Must", "sc": ord(sc)}, f"(separator(Must({byte(sc)})))")
    # an option left out is its documented default
    add({"case": "Any", "sep": "Allow", "sc": ord(default_sep)}, "")
    add({"case": "Upper", "sep": "Allow", "sc": ord(default_sep)}, "(case(Upper))")
    add({"case": "Any", "sep": "Must", "sc": ord(default_sep)}, f"(separator(Must(b'{default_sep}')))")
    return Fam(name, configs)


def fam_mac():
    return hexid("mac_address", "u64", ":", 12, "to_mac_address_string")


def fam_uuid():
    return hexid("uuid", "u128", "-", 32, "to_uuid_string")



# ---------------------------------------------------------------- addresses, hosts, domains
def opts(**kw):
    """Only the options given; None leaves the option out (its default)."""
    parts = [f"{k}({v})" for k, v in kw.items() if v is not None]
    return "(" + ", ".join(parts) + ")" if parts else ""


PORT_FIELD = {"Allow": "pub port: Option<u16>,", "Must": "pub port: u16,", "Disallow": ""}
PORT_PROJ = {"Allow": "self.port.map(|p| p as i64).unwrap_or(-1)", "Must": "self.port as i64", "Disallow": "-1i64"}


def ip_family(name, field, ty, octets):
    configs = []

    def add(local, port, given=(True, True)):
        n = len(configs)
        attrs = opts(local=local if given[0] else None, port=port if given[1] else None)
        if port == "Disallow":
            body, acc = f"(pub {ty});", "self.0"
        else:
            body, acc = f"{{ pub {field}: {ty}, {PORT_FIELD[port]} }}", f"self.{field}"
        item = f"""
#[derive(Validator)]
#[validator({name}{attrs})]
pub struct S{n}{body}
impl Proj for S{n} {{
    fn proj(&self) -> Value {{ json!({{"ip": {octets}(&{acc}), "port": {PORT_PROJ[port]}}}) }}
    fn emit(&self) -> Option<String> {{ Some(self.to_uri_authority_string().into_owned()) }}
}}"""
        configs.append(({"local": local, "port": port}, item, f"|i| str_session::<S{n}>(&i.text())"))

    for local, port in product(TRI, TRI):
        add(local, port)
    add("Allow", "Allow", (False, False))
    add("Allow", "Must", (False, True))
    add("Disallow", "Allow", (True, False))
    return Fam(name, configs, prelude="use std::net::*;")


def fam_ip():
    return ip_family("ip", "ip", "IpAddr", "ip_val")


def fam_ipv4():
    return ip_family("ipv4", "ipv4", "Ipv4Addr", "ipv4_val")


def fam_ipv6():
    return ip_family("ipv6", "ipv6", "Ipv6Addr", "ipv6_val")


def shows_local(local, altl):
    return local == "Allow" and altl != "Allow"


def fam_host():
    configs = []

    def add(local, port, altl, given=(True, True, True)):
        n = len(configs)
        attrs = opts(local=local if given[0] else None, port=port if given[1] else None,
                     at_least_two_labels=altl if given[2] else None)
        sl = shows_local(local, altl)
        if port == "Disallow" and not sl:
            body, acc = "(pub Host);", "self.0"
        else:
            body = "{ pub host: Host, " + PORT_FIELD[port] + (" pub is_local: bool," if sl else "") + " }"
            acc = "self.host"
        item = f"""
#[derive(Validator)]
#[validator(host{attrs})]
pub struct S{n}{body}
impl Proj for S{n} {{
    fn proj(&self) -> Value {{
        let (t, h) = host_val(&{acc});
        json!({{"t": t, "h": h, "port": {PORT_PROJ[port]}{', "is_local": self.is_local' if sl else ''}}})
    }}
    fn emit(&self) -> Option<String> {{ Some(self.to_uri_authority_string().into_owned()) }}
}}"""
        configs.append(({"local": local, "port": port, "altl": altl}, item, f"|i| str_session::<S{n}>(&i.text())"))

    for c in product(TRI, TRI, TRI):
        add(*c)
    add("Allow", "Allow", "Allow", (False, False, False))
    add("Allow", "Disallow", "Must", (False, True, True))
    add("Must", "Allow", "Allow", (True, False, False))
    return Fam("host", configs, oracle="net_oracle", prelude="use validators::models::Host;")


def fam_domain(some=None):
    configs = []

    def add(ipv4, local, port, altl, given=(True, True, True, True)):
        n = len(configs)
        conflict = "Allow" if ipv4 == "Must" and altl == "Disallow" else None
        attrs = opts(ipv4=ipv4 if given[0] else None, local=local if given[1] else None,
                     port=port if given[2] else None, at_least_two_labels=altl if given[3] else None, conflict=conflict)
        sl = shows_local(local, altl)
        s4 = sl and ipv4 == "Allow"
        if port == "Disallow" and not sl:
            body, acc = "(pub String);", "self.0"
        else:
            body = "{ pub domain: String, " + PORT_FIELD[port] + (" pub is_local: bool," if sl else "") + (" pub is_ipv4: bool," if s4 else "") + " }"
            acc = "self.domain"
        item = f"""
#[derive(Validator)]
#[validator(domain{attrs})]
pub struct S{n}{body}
impl Proj for S{n} {{
    fn proj(&self) -> Value {{
        json!({{"domain": cps(&{acc}), "port": {PORT_PROJ[port]}{', "is_local": self.is_local' if sl else ''}{', "is_ipv4": self.is_ipv4' if s4 else ''}}})
    }}
    fn emit(&self) -> Option<String> {{ Some(self.to_uri_authority_string().into_owned()) }}
    fn extra(&self) -> Value {{
        json!({{"fq": self.is_fully_qualified(), "nfq": cps(self.get_domain_non_fully_qualified())}})
    }}
}}"""
        configs.append(({"ipv4": ipv4, "local": local, "port": port, "altl": altl}, item, f"|i| str_session::<S{n}>(&i.text())"))

    for c in product(TRI, TRI, TRI, TRI):
        add(*c)
    add("Allow", "Allow", "Allow", "Allow", (False,) * 4)
    add("Must", "Allow", "Allow", "Allow", (True, False, False, False))
    add("Allow", "Allow", "Disallow", "Must", (False, False, True, True))
    return Fam("domain", configs, oracle="net_oracle")


def fam_email():
    configs = []

    def add(comment, ip, local, altl, non_ascii, given=(True,) * 5):
        n = len(configs)
        conflict = "Allow" if ip == "Must" and altl == "Disallow" else None
        vals = [comment, ip, local, altl, non_ascii]
        names = ["comment", "ip", "local", "at_least_two_labels", "non_ascii"]
        attrs = opts(**{k: v if g else None for k, v, g in zip(names, vals, given)}, conflict=conflict)
        sl = shows_local(local, altl)
        ty, f = {"Allow": ("Host", "host_val"), "Must": ("IpAddr", "host_of_ip"), "Disallow": ("String", "host_of_name")}[ip]
        cf = "".join(f"pub comment_{w}_{p}: Option<String>," for p in ("local_part", "domain_part") for w in ("before", "after")) if comment == "Allow" else ""
        cp = (', "c": [' + ", ".join(f"opt_text(&self.comment_{w}_{p})" for p in ("local_part", "domain_part") for w in ("before", "after")) + "]") if comment == "Allow" else ""
        item = f"""
#[derive(Validator)]
#[validator(email{attrs})]
pub struct S{n} {{ pub local_part: String, pub need_quoted: bool, pub domain_part: {ty}, {cf} {'pub is_local: bool,' if sl else ''} }}
impl Proj for S{n} {{
    fn proj(&self) -> Value {{
        let (t, h) = {f}(&self.domain_part);
        json!({{"lp": cps(&self.local_part), "need": self.need_quoted, "t": t, "h": h{', "is_local": self.is_local' if sl else ''}{cp}}})
    }}
    fn emit(&self) -> Option<String> {{ Some(self.to_email_string()) }}
}}"""
        cfg = {"comment": comment, "ip": ip, "local": local, "altl": altl, "non_ascii": non_ascii}
        configs.append((cfg, item, f"|i| str_session::<S{n}>(&i.text())"))

    for c in product(["Allow", "Disallow"], TRI, TRI, TRI, ["Allow", "Disallow"]):
        add(*c)
    add("Allow", "Allow", "Allow", "Allow", "Allow", (False,) * 5)
    add("Disallow", "Allow", "Allow", "Allow", "Allow", (True, False, False, False, False))
    add("Allow", "Disallow", "Allow", "Must", "Disallow", (False, True, False, True, True))
    return Fam("email", configs, oracle="email_oracle", prelude="use std::net::*; use validators::models::Host;")


# ---------------------------------------------------------------- URLs
def simple(name, attrs, inner, proj, emit=None, extra=None, n=0, body=None, session=None):
    """A tuple struct of one field."""
    item = f"""
#[derive(Validator)]
#[validator({name}{attrs})]
pub struct S{n}{body or f"(pub {inner});"}
impl Proj for S{n} {{
    fn proj(&self) -> Value {{ {proj} }}
    {f"fn emit(&self) -> Option<String> {{ {emit} }}" if emit else ""}
    {f"fn extra(&self) -> Value {{ {extra} }}" if extra else ""}
}}"""
    return item, session or f"|i| str_session::<S{n}>(&i.text())"


def fam_http_url():
    configs = []
    for n, local in enumerate(TRI + [None]):
        item, ses = simple("http_url", opts(local=local), "", 'json!({"url": cps(self.url.as_str()), "https": self.is_https})',
                           "Some(self.url.as_str().to_string())", n=n, body=" { pub url: validators::url::Url, pub is_https: bool }")
        configs.append(({"local": local or "Allow"}, item, ses))
    return Fam("http_url", configs, oracle="url_oracle")


def fam_http_ftp_url():
    configs = []
    for n, local in enumerate(TRI + [None]):
        item, ses = simple("http_ftp_url", opts(local=local), "", 'json!({"url": cps(self.url.as_str()), "protocol": cps(&format!("{:?}", self.protocol))})',
                           "Some(self.url.as_str().to_string())", n=n, body=" { pub url: validators::url::Url, pub protocol: validators::models::Protocol }")
        configs.append(({"local": local or "Allow"}, item, ses))
    return Fam("http_ftp_url", configs, oracle="url_oracle")


def fam_url():
    item, ses = simple("url", "", "validators::url::Url", 'json!({"url": cps(self.0.as_str())})', "Some(self.0.as_str().to_string())")
    return Fam("url", [({"k": "url"}, item, ses)], oracle="url_oracle")


# ---------------------------------------------------------------- Base32, Base64
def base_family(name, decoded):
    def build():
        configs = []
        for n, padding in enumerate(TRI + [None]):
            session = f'|i| if i.kind == "bytes" {{ byte_session::<S{n}>(&i.bytes()) }} else {{ str_session::<S{n}>(&i.text()) }}'
            if decoded:
                item, ses = simple(name, opts(padding=padding), "Vec<u8>", 'json!({"bytes": bytes_val(&self.0)})', n=n, session=session,
                                   extra='json!({"len": CollectionLength::len(self), "empty": CollectionLength::is_empty(self)})')
            else:
                item, ses = simple(name, opts(padding=padding), "String", 'json!({"text": cps(&self.0)})', n=n, session=session)
            configs.append(({"padding": padding or "Allow"}, item, ses))
        return Fam(name, configs, kinds=("text", "bytes"))
    return build


# ---------------------------------------------------------------- integers
def codes(s):
    return [ord(c) for c in str(s)]


WIDTH = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}


def limits(ty):
    bits = WIDTH[ty[1:]]
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)


def range_text(lo, hi, incl, form):
    """A range, written as named options, as an expression, or as the value of a name."""
    if form == "named":
        parts = ([f"min = {lo}"] if lo is not None else []) + ([f"max = {hi}"] if hi is not None else [])
        if incl is not None:
            parts.append(f"inclusive = {'true' if incl else 'false'}")
        return "(" + ", ".join(parts) + ")"
    if form == "call":   # min(1) instead of min = 1
        parts = ([f"min({lo})"] if lo is not None else []) + ([f"max({hi})"] if hi is not None else [])
        if incl is not None:
            parts.append(f"inclusive({'true' if incl else 'false'})")
        return "(" + ", ".join(parts) + ")"
    e = f"{lo if lo is not None else ''}..{'=' if incl and hi is not None else ''}{hi if hi is not None else ''}"
    return f"({e})" if form == "expr" else f" = {e}"


def int_ranges(ty, full):
    lo, hi = limits(ty)
    neg = ty[0] == "i"
    some = [(2, 5, None, "named"), (2, 5, False, "named"), (2, 5, True, "named"), (5, 6, False, "named"), (7, 7, None, "named"),
            (None, 5, None, "named"), (None, 5, False, "named"), (5, None, None, "named"), (5, None, False, "named"),
            (0, 5, False, "expr"), (0, 5, True, "expr"), (3, None, False, "expr"), (None, 5, False, "expr"), (None, 5, True, "expr"), (None, None, False, "expr"),
            (1, 9, False, "value"), (1, 9, True, "value"), (1, 9, None, "call"), (1, 9, False, "call"), (0, 1, False, "named"), (0, 1, None, "named"), (0, 0, None, "named"),
            (lo, hi, None, "named"), (lo, hi, False, "named"), (hi, None, None, "named"), (None, lo, None, "named"), (hi, hi, None, "named"), (lo, lo, True, "named"),
            (None, hi, False, "named"), (hi - 1, hi, False, "named"), (None, None, None, "named")]
    if neg:
        some += [(-3, 4, None, "named"), (-3, 4, False, "named"), (-5, -4, False, "named"), (-1, -1, None, "named"), (None, -1, None, "named"), (None, 0, False, "named"),
                 (-1, None, None, "named"), (lo, -1, None, "named"), (-3, 0, False, "named")]
    return some if full else some[:9:3] + some[9:13] + some[22:23] + some[31:36]


def int_family(name, types, full_types):
    def build():
        configs = []

        def add(ty, mode, r):
            n = len(configs)
            lo, hi, incl, form = r or (None, None, None, "")
            attrs = "" if mode is None else "(range(Unlimited))" if mode == "Unlimited" else f"(range({mode}{range_text(lo, hi, incl, form)}))"
            doors = "signed" if ty[0] == "i" else "unsigned"
            err = f"validators::errors::{'Signed' if ty[0] == 'i' else 'Unsigned'}IntegerError"
            extra = (f'"u64" => de_session::<S{n}, u64, {err}>(i, Prim::U64), "u128" => de_session::<S{n}, u128, {err}>(i, Prim::U128),' if ty[0] == "i" else "")
            item, ses = simple(name, attrs, ty, 'json!({"n": cps(&self.0.to_string())})', n=n, session=(
                f'|i| match i.kind.as_str() {{ "text" => str_session::<S{n}>(&i.text()), {extra} '
                f'"json" => json_session::<S{n}, {err}>(i, json_int), _ => {doors}_doors::<S{n}, _>(i) }}'))
            tmin, tmax = limits(ty)
            # a range whose end is open has no upper bound to include
            configs.append(({"ty": ty, "unsigned": ty[0] == "u", "tmin": codes(tmin), "tmax": codes(tmax), "mode": mode or "Unlimited",
                             "min": [] if lo is None else codes(lo), "max": [] if hi is None else codes(hi), "incl": incl is not False}, item, ses))

        for ty in types:
            add(ty, None, None)
            for mode in ("Inside", "Outside"):
                for r in int_ranges(ty, ty in full_types):
                    add(ty, mode, r)
        add(types[0], "Unlimited", None)
        ints = [f"{types[0][0]}{w}" for w in WIDTH]
        return Fam(name, configs, kinds=tuple(["text", "json"] + ints + (["u64", "u128"] if types[0][0] == "i" else [])))
    return build


fam_signed = int_family("signed_integer", ["i8", "i16", "i32", "i64", "i128", "isize"], {"i8", "i64"})
fam_unsigned = int_family("unsigned_integer", ["u8", "u16", "u32", "u64", "u128", "usize"], {"u8", "u128"})


# ---------------------------------------------------------------- floats
def float_key(x, ty):
    if x is None:
        return []
    f = float(str(x))
    if ty == "f32":
        f = struct.unpack("<f", struct.pack("<f", f))[0]
    b = struct.unpack("<Q", struct.pack("<d", f if f != 0 else 0.0))[0]
    key = (~b & (1 << 64) - 1) if b >> 63 else b | 1 << 63
    return [key >> 48, key >> 32 & 0xffff, key >> 16 & 0xffff, key & 0xffff]


def fam_number():
    configs = []
    ranges = [(0, "1.0", None, "named"), (0, 1, False, "named"), ("-1.5", "2.5", None, "named"), ("-1.5", "2.5", False, "named"), ("0.1", None, None, "named"), (None, "0.1", None, "named"),
              (None, "0.1", False, "named"), ("0.25", "0.75", False, "expr"), ("0.25", "0.75", True, "expr"), ("1e10", None, False, "expr"), (None, "1e-10", True, "expr"),
              (1, 1, None, "named"), ("-0.0", "0.0", None, "named"), ("0.1", "0.1", True, "named"), (1, 2, False, "named"), ("-3.4e38", "3.4e38", None, "named"), (None, None, None, "named"), ("0.5", "1.5", False, "value")]

    def add(ty, nan, mode, r):
        n = len(configs)
        lo, hi, incl, form = r or (None, None, None, "")
        parts = ([f"nan({nan})"] if nan else []) + ([f"range({mode}{range_text(lo, hi, incl, form)})"] if mode else [])
        if nan == "Must" and mode == "Inside":
            parts.append("conflict(Allow)")
        item, ses = simple("number", f"({', '.join(parts)})" if parts else "", ty, "f64_val(self.0 as f64)", n=n, session=(
            f'|i| match i.kind.as_str() {{ "text" => str_session::<S{n}>(&i.text()), "f32" => prim_session(i, <S{n} as ValidateNumber>::parse_f32, <S{n} as ValidateNumber>::validate_f32, Prim::F32, None), '
            f'"f64" => prim_session(i, <S{n} as ValidateNumber>::parse_f64, <S{n} as ValidateNumber>::validate_f64, Prim::F64, None), _ => Value::Null }}'))
        configs.append(({"ty": ty, "nan": nan or "Allow", "mode": mode or "Unlimited", "min": float_key(lo, ty), "max": float_key(hi, ty), "incl": incl is not False}, item, ses))

    for ty in ("f32", "f64"):
        add(ty, None, None, None)
        for nan in TRI:
            add(ty, nan, None, None)
            for mode in ("Inside", "Outside"):
                for r in ranges if nan == "Allow" else ranges[:4] + ranges[11:12]:
                    add(ty, nan, mode, r)
    return Fam("number", configs, oracle="number_oracle", kinds=("text", "f32", "f64"))


# ---------------------------------------------------------------- text, line
def text_family(name):
    def build():
        configs = []

        def add(unit, mn, tm, mx):
            n = len(configs)
            parts = ", ".join(f"{k} = {v}" for k, v in (("min", mn), ("trimmed_min", tm), ("max", mx)) if v is not None)
            attrs = "" if unit is None else f"({unit}_length({parts}))"
            item, ses = simple(name, attrs, "String", 'json!({"text": cps(&self.0)})', n=n)
            no = lambda x: -1 if x is None else x
            configs.append(({"unit": unit or "char", "min": no(mn), "tmin": no(tm), "max": no(mx)}, item, ses))

        add(None, None, None, None)
        for unit in ("char", "byte"):
            for mn, tm, mx in product((None, 0, 3), (None, 0, 2), (None, 0, 5)):
                if mx == 0 and (mn or tm) or (mn == 0 and tm):
                    continue
                add(unit, mn, tm, mx)
            for mn, tm, mx in ((4, 4, 4), (3, None, 3), (None, 3, 3), (1, 1, None), (3, 1, 6), (2, 2, 3), (1, None, 1), (None, 1, 1)):
                add(unit, mn, tm, mx)
        return Fam(name, configs)
    return build


# ---------------------------------------------------------------- collections
COLLECTIONS = {
    "Vec<u32>": ("list", "i.c.clone()", "self.0.clone()"),
    "BinaryHeap<u32>": ("heap", "i.c.iter().copied().collect()", "self.0.clone().into_sorted_vec()"),
    "BTreeSet<u32>": ("set", "i.c.iter().copied().collect()", "self.0.iter().copied().collect::<Vec<u32>>()"),
    "HashSet<u32>": ("set", "i.c.iter().copied().collect()", "{ let mut v: Vec<u32> = self.0.iter().copied().collect(); v.sort(); v }"),
    "BTreeMap<u32, u8>": ("map", "i.c.iter().map(|c| (*c, 7)).collect()", "self.0.keys().copied().collect::<Vec<u32>>()"),
    "HashMap<u32, u8>": ("map", "i.c.iter().map(|c| (*c, 7)).collect()", "{ let mut v: Vec<u32> = self.0.keys().copied().collect(); v.sort(); v }"),
    "Map<String, Value>": ("map", "i.c.iter().map(|c| (c.to_string(), json!([]))).collect()",
                           "{ let mut v: Vec<u32> = self.0.keys().map(|k| k.parse().unwrap()).collect(); v.sort(); v }"),
    "Base": ("list", "<Base as ValidateBytes>::parse_vec_u8(validators::data_encoding::BASE64.encode(&i.bytes()).into_bytes()).ok().unwrap()",
             "self.0.0.iter().map(|c| *c as u32).collect::<Vec<u32>>()"),
}


def fam_length():
    configs = []

    def add(ty, mn, mx, form="="):
        n = len(configs)
        kind, make, show = COLLECTIONS[ty]
        val = (lambda v: f" = {v}") if form == "=" else (lambda v: f"({v})")
        parts = ", ".join(f"{k}{val(v)}" for k, v in (("min", mn), ("max", mx)) if v is not None)
        run = f"length_session::<S{n}, {ty}>(|| {make})"
        if ty == "Base":
            run = f"if i.c.is_empty() || i.c.iter().any(|c| *c > 255) {{ Value::Null }} else {{ length_doors::<S{n}, Base>(|| {make}) }}"
        item, ses = simple("length", f"({parts})" if parts else "", ty, f'let held: Vec<u32> = {show}; json!({{"held": held}})', n=n, session=f"|i| {run}",
                           extra='json!({"len": CollectionLength::len(&self.0), "empty": CollectionLength::is_empty(&self.0)})')
        configs.append(({"ty": kind, "min": -1 if mn is None else mn, "max": -1 if mx is None else mx}, item, ses))

    for ty in COLLECTIONS:
        for mn, mx in ((None, None), (1, 3), (None, 0), (2, None), (None, 2), (3, 3), (0, 2), (0, 0)):
            add(ty, mn, mx)
    add("Vec<u32>", 1, 3, "()")
    pre = "use std::collections::*;\n#[derive(Validator)]\n#[validator(base64_decoded)]\npub struct Base(pub Vec<u8>);"
    return Fam("length", configs, prelude=pre)


# ---------------------------------------------------------------- sizes
def size_family(name, ty):
    def build():
        configs = []

        def add(case, r):
            n = len(configs)
            lo, hi, incl, form = r or (None, None, None, "")
            parts = ([f"range{range_text(lo, hi, incl, form)}"] if r else []) + ([f"ignore_case = {case}"] if case else [])
            item, ses = simple(name, f"({', '.join(parts)})" if parts else "", f"validators::byte_unit::{ty}", 'json!({"n": cps(&self.0.as_u128().to_string())})', n=n, session=(
                f'|i| match i.kind.as_str() {{ "text" => str_session::<S{n}>(&i.text()), _ => size_doors::<S{n}, _>(i) }}'))
            read = "bit" if ty == "Bit" else "exact" if case == "false" else "any"
            configs.append(({"read": read, "mode": "Inside", "min": [] if lo is None else codes(lo), "max": [] if hi is None else codes(hi), "incl": incl is not False}, item, ses))

        big = 2 ** 64
        ranges = [None, (1, None, None, "named"), (None, 1000, None, "named"), (None, 1000, False, "named"), (1, 1024, None, "named"), (1, 1024, False, "named"), (1000, 1000, None, "named"),
                  (0, 8, False, "expr"), (0, 8, True, "expr"), (8, None, False, "expr"), (None, 8, False, "expr"), (0, 0, None, "named"), (1500, 1501, False, "named"), (5, 80, None, "call"),
                  (None, big, None, "named"), (big - 1, big, None, "named"), (big - 1, None, None, "named"), (big, 2 * big, None, "named"), (None, None, None, "named"), (1, 8, True, "value")]
        for r in ranges:
            add(None, r)
        if name == "byte":
            for case in ("true", "false"):
                for r in ranges[:6]:
                    add(case, r)
        return Fam(name, configs, oracle="size_oracle", kinds=("text", "u8", "u16", "u32", "u64", "u128", "usize"))
    return build


# ---------------------------------------------------------------- JSON
JSON_TYPES = {"value": "Value", "object": "Map<String, Value>", "array": "Vec<Value>", "string": "String", "number": "serde_json::Number", "bool": "bool",
              "option": "Option<bool>", "u8": "u8", "bytes": "Vec<u8>", "f64": "f64"}


def fam_json():
    configs = []
    for n, (ty, rust) in enumerate(JSON_TYPES.items()):
        item, ses = simple("json", "", rust, 'json!({"doc": doc_val(&serde_json::to_value(&self.0).unwrap())})', "Some(self.to_minified_json_string())",
                           "beautified(self)", n=n, session=f"|i| json_doors::<S{n}, _>(i)")
        configs.append(({"ty": ty}, item, ses))
    return Fam("json", configs, oracle="json_oracle", kinds=("text", "doc", "bool", "f64", "i64", "u64", "i8", "u32", "isize", "usize", "i128", "u128"))


# ---------------------------------------------------------------- phone numbers
def fam_phone():
    configs = []
    sets = [[], ["US"], ["GB"], ["TW"], ["JP"], ["CA"], ["IT"], ["KZ"], ["US", "GB"], ["US", "CA"], ["TW", "JP"], ["GB", "FR", "IT"], ["RU", "KZ"], ["US", "CA", "GB", "TW", "JP", "FR", "IT", "AU", "KZ", "RU"]]
    for n, cs in enumerate(sets):
        attrs = "" if not cs else f"(countries({', '.join(cs)}))"
        if len(cs) > 1:
            inner, proj = "std::collections::HashMap<validators::phonenumber::country::Id, validators::phonenumber::PhoneNumber>", 'json!({"nums": phones_val(&self.0)})'
        else:
            inner, proj = "validators::phonenumber::PhoneNumber", f'json!({{"nums": [["{cs[0] if cs else ""}", phone_val(&self.0)]]}})'
        item, ses = simple("phone", attrs, inner, proj, n=n)
        configs.append(({"cs": sorted(cs)}, item, ses))
    return Fam("phone", configs, oracle="phone_oracle")


# ---------------------------------------------------------------- truth values
def fam_boolean():
    err = "validators::errors::BooleanError"
    item, ses = simple("boolean", "", "bool", 'json!({"truth": self.0})', session=(
        '|i| match i.kind.as_str() { "text" => str_session::<S0>(&i.text()), "char" => prim_session(i, <S0 as ValidateChar>::parse_char, <S0 as ValidateChar>::validate_char, Prim::Char, None), '
        '"bool" => prim_session(i, <S0 as ValidateBoolean>::parse_bool, <S0 as ValidateBoolean>::validate_bool, Prim::Bool, Some(validators::Result::from)), '
        f'"json" => json_session::<S0, {err}>(i, json_int), '
        'k if k.starts_with("i") => signed_doors::<S0, _>(i), _ => unsigned_doors::<S0, _>(i) }'))
    return Fam("boolean", [({"k": "boolean"}, item, ses)],
               kinds=tuple(["text", "char", "bool", "json"] + [f"{s}{w}" for s in "iu" for w in WIDTH]))


# ---------------------------------------------------------------- patterns, versions
PATTERNS = {"hex": "^[0-9a-fA-F]+$", "nonzero": "^[1-9]+$", "poker": "^([AJQK1-9]|10)$", "anya": "a", "any": "", "empty": "^$", "yes": "(?i)^yes$", "one": "^.$",
            "head": "^a", "tail": "a$", "date": "^[0-9]{4}-[0-9]{2}-[0-9]{2}$", "or": "^(?:abc?|b)$"}


def fam_regex():
    configs, pre = [], "use std::sync::LazyLock; use validators::regex::Regex; fn compiled(p: &str) -> Regex { Regex::new(p).unwrap() }\n"
    for n, (p, (name, text)) in enumerate((f, x) for x in PATTERNS.items() for f in ("literal", "static", "path", "call")):
        const = f"RE_{name.upper()}"
        if p == "static":
            pre += f'static {const}: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"{text}").unwrap());\n'
        form = {"literal": f'r"{text}"', "static": const, "path": f"self::{const}", "call": f'compiled(r"{text}")'}[p]
        attrs = f"(regex({form}))" if p != "path" else f"(regex = {form})"
        item, ses = simple("regex", attrs, "String", 'json!({"text": cps(&self.0)})', n=n)
        configs.append(({"p": name, "form": p}, item, ses))
    return Fam("regex", configs, prelude=pre)


def fam_semver():
    item, ses = simple("semver", "", "validators::semver::Version", 'json!({"text": cps(&self.0.to_string())})', "Some(self.0.to_string())")
    return Fam("semver", [({"k": "semver"}, item, ses)])


def fam_semver_req():
    item, ses = simple("semver_req", "", "validators::semver::VersionReq", 'json!({"text": cps(&self.0.to_string())})', "Some(self.0.to_string())")
    return Fam("semver_req", [({"k": "semver_req"}, item, ses)], oracle="semver_req_oracle")


BUILDERS = {"mac_address": fam_mac, "uuid": fam_uuid, "ip": fam_ip, "ipv4": fam_ipv4, "ipv6": fam_ipv6,
            "host": fam_host, "domain": fam_domain, "email": fam_email,
            "http_url": fam_http_url, "http_ftp_url": fam_http_ftp_url, "url": fam_url,
            "signed_integer": fam_signed, "unsigned_integer": fam_unsigned, "number": fam_number,
            "text": text_family("text"), "line": text_family("line"), "length": fam_length, "boolean": fam_boolean,
            "byte": size_family("byte", "Byte"), "bit": size_family("bit", "Bit"), "json": fam_json, "phone": fam_phone, "regex": fam_regex, "semver": fam_semver, "semver_req": fam_semver_req}
for _b in ("base32", "base64", "base64_url"):
    BUILDERS[_b] = base_family(_b, False)
    BUILDERS[_b + "_decoded"] = base_family(_b + "_decoded", True)
