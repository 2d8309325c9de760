//! DOM histories: a random driver that records traces, and a replayer of behaviours of the spec.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use svgdom::*;
use crate::alloc::{live, sut};
use crate::json::{esc, ints, J};
use crate::proj::{preorder, Table};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
}

/// One call: op name, two nodes, two strings, a value kind.
#[derive(Clone, Debug, Default)]
pub struct Op { pub op: String, pub x: usize, pub y: usize, pub s: String, pub k: String, pub t: String, pub fb: String, pub form: usize }

impl Op {
    fn json(&self) -> String {
        format!("\"op\":\"{}\",\"x\":{},\"y\":{},\"s\":{},\"k\":\"{}\",\"t\":{},\"fb\":{}",
            self.op, self.x, self.y, esc(&self.s), self.k, esc(&self.t), esc(&self.fb))
    }
    /// "append 2 3 s k t fb" with ~ for an empty string
    fn parse(s: &str) -> Op {
        let f: Vec<&str> = s.split(' ').collect();
        let g = |i: usize| f.get(i).map(|s| if *s == "~" { "" } else { *s }).unwrap_or("").to_string();
        let n = |i: usize| f.get(i).and_then(|s| s.parse().ok()).unwrap_or(0);
        Op { op: g(0), x: n(1), y: n(2), s: g(3), k: g(4), t: g(5), fb: g(6), form: n(7) }
    }
}

pub struct World { pub doc: Option<Document>, pub tab: Table, prev: Vec<String> }

fn fallback(s: &str) -> Option<PaintFallback> {
    match s {
        "" => None,
        "none" => Some(PaintFallback::None),
        "currentColor" => Some(PaintFallback::CurrentColor),
        _ => Some(PaintFallback::Color(s.parse().unwrap())),
    }
}

fn plain(k: &str, t: &str) -> AttributeValue {
    match k {
        "none" => AttributeValue::None,
        "inherit" => AttributeValue::Inherit,
        "current" => AttributeValue::CurrentColor,
        "number" => AttributeValue::from(t.parse::<f64>().unwrap()),
        "length" => AttributeValue::from(t.parse::<Length>().unwrap()),
        "color" => AttributeValue::from(t.parse::<Color>().unwrap()),
        "transform" => AttributeValue::from(t.parse::<Transform>().unwrap()),
        "numbers" => AttributeValue::from(t.parse::<NumberList>().unwrap()),
        "lengths" => AttributeValue::from(t.parse::<LengthList>().unwrap()),
        "points" => AttributeValue::from(t.parse::<Points>().unwrap()),
        "path" => AttributeValue::from(t.parse::<Path>().unwrap()),
        "viewbox" => AttributeValue::from(t.parse::<ViewBox>().unwrap()),
        "aspect" => AttributeValue::from(t.parse::<AspectRatio>().unwrap()),
        "angle" => AttributeValue::from(t.parse::<Angle>().unwrap()),
        _ => AttributeValue::from(t),
    }
}

pub fn attribute(w: &Table, o: &Op) -> Attribute {
    let (custom, aid);
    if o.s.starts_with('@') { custom = true; aid = AttributeId::X; }
    else { custom = false; aid = AttributeId::from_str(&o.s).expect("attribute name"); }
    let nm = &o.s[if custom { 1 } else { 0 }..];
    if o.k == "link" {
        let to = w.0[o.y - 1].clone();
        let fb = fallback(&o.fb);
        if fb.is_some() {
            return if custom { Attribute::from((nm, (to, fb))) } else { Attribute::from((aid, (to, fb))) };
        }
        return match o.form % 5 {
            0 => if custom { Attribute::from((nm, to)) } else { Attribute::from((aid, to)) },
            1 => if custom { Attribute::from((nm, (to, None))) } else { Attribute::from((aid, (to, None))) },
            2 => if custom { Attribute::new(nm, AttributeValue::Link(to)) } else { Attribute::new(aid, AttributeValue::Link(to)) },
            3 => if custom { Attribute::new(nm, AttributeValue::FuncLink(to)) } else { Attribute::new(aid, AttributeValue::FuncLink(to)) },
            _ => if custom { Attribute::new(nm, AttributeValue::Paint(to, None)) } else { Attribute::new(aid, AttributeValue::Paint(to, None)) },
        };
    }
    let v = plain(&o.k, &o.t);
    if custom { Attribute::new(nm, v) } else { Attribute::new(aid, v) }
}

fn res(r: Result<(), Error>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(Error::ElementMustHaveAnId) => "noid".into(),
        Err(Error::ElementCrosslink) => "cross".into(),
    }
}

impl World {
    pub fn new() -> World {
        let doc = sut(Document::new);
        let root = doc.root();
        let mut w = World { doc: Some(doc), tab: Table(vec![root]), prev: Vec::new() };
        w.diff();
        w
    }

    fn diff(&mut self) -> String {
        let mut v = Vec::new();
        for i in 0..self.tab.0.len() {
            let p = self.tab.node(&self.tab.0[i]);
            if i >= self.prev.len() { self.prev.push(String::new()); }
            if self.prev[i] != p {
                v.push(format!("[{},{}]", i + 1, p));
                self.prev[i] = p;
            }
        }
        format!("[{}]", v.join(","))
    }

    pub fn full(&self) -> String {
        let v: Vec<String> = self.tab.0.iter().map(|n| self.tab.node(n)).collect();
        format!("[{}]", v.join(","))
    }

    /// Performs the call and returns its result; new nodes are numbered in document order.
    pub fn apply(&mut self, o: &Op) -> String {
        let limit = self.tab.0.len() * 2 + 10;
        let tab = &mut self.tab;
        let doc = &mut self.doc;
        let r = catch_unwind(AssertUnwindSafe(|| -> String {
            let mut x = if o.x > 0 { Some(tab.0[o.x - 1].clone()) } else { None };
            let y = if o.y > 0 { Some(tab.0[o.y - 1].clone()) } else { None };
            macro_rules! x { () => { x.as_mut().unwrap() } }
            macro_rules! y { () => { y.clone().unwrap() } }
            macro_rules! d { () => { doc.as_mut().unwrap() } }
            match o.op.as_str() {
                "element" => {
                    let n = if o.s.starts_with('@') { sut(|| d!().create_element(&o.s[1..])) }
                            else { let id = ElementId::from_str(&o.s).expect("tag"); sut(|| d!().create_element(id)) };
                    tab.0.push(n);
                    "ok".into()
                }
                "node" => {
                    let k = if o.k == "text" { NodeType::Text } else { NodeType::Comment };
                    let n = sut(|| d!().create_node(k, o.t.as_str()));
                    tab.0.push(n);
                    "ok".into()
                }
                "append" => { sut(|| x!().append(y!())); "ok".into() }
                "prepend" => { sut(|| x!().prepend(y!())); "ok".into() }
                "after" => { sut(|| x!().insert_after(y!())); "ok".into() }
                "before" => { sut(|| x!().insert_before(y!())); "ok".into() }
                "detach" => { sut(|| x!().detach()); "ok".into() }
                "remove" => { let n = x!().clone(); sut(|| d!().remove_node(n)); "ok".into() }
                "drain" => {
                    let n = x!().clone();
                    let (k, s) = (o.k.clone(), o.s.clone());
                    let c = sut(|| d!().drain(n, |n| match k.as_str() {
                        "tag" => crate::proj::tag(n) == s,
                        "kind" => crate::proj::kind(n) == s,
                        "id" => *n.id() == s,
                        "attr" => n.attributes().iter().any(|a| crate::proj::aname(&a.name) == s),
                        "used" => n.is_used(),
                        "unused" => n.is_element() && !n.is_used(),
                        "empty" => !n.has_children(),
                        "last" => n.next_sibling().is_none(),
                        "all" => true,
                        _ => false,
                    }));
                    format!("{}", c)
                }
                "copy" | "deep" => {
                    let n = x!().clone();
                    let c = if o.op == "copy" { sut(|| d!().copy_node(n)) } else { sut(|| d!().copy_node_deep(n)) };
                    for n in preorder(&c, limit) {
                        if tab.num(Some(&n)) == -1 { tab.0.push(n); }
                    }
                    format!("{}", tab.num(Some(&c)))
                }
                "set" => { let a = attribute(tab, o); res(sut(|| x!().set_attribute_checked(a))) }
                "setp" => { let a = attribute(tab, o); sut(|| x!().set_attribute(a)); "ok".into() }
                "setif" => { let a = attribute(tab, o); sut(|| x!().set_attribute_if_none(a)); "ok".into() }
                "unset" => {
                    if o.s.starts_with('@') { sut(|| x!().remove_attribute(&o.s[1..])) }
                    else { let a = AttributeId::from_str(&o.s).unwrap(); sut(|| x!().remove_attribute(a)) }
                    "ok".into()
                }
                "amut" => {
                    let v = plain(&o.k, &o.t);
                    let q: QName<AttributeId> = if o.s.starts_with('@') { QName::Name(o.s[1..].to_string()) }
                            else { QName::Id(AttributeId::from_str(&o.s).unwrap()) };
                    sut(|| {
                        let mut at = x!().attributes_mut();
                        let slot = match o.form % 4 {
                            3 if at.iter().any(|a| a.name == q && a.is_svg()) =>
                                at.iter_mut().svg().find(|(id, _)| q.has_id(*id)).map(|(_, a)| &mut a.value),
                            0 => at.get_value_mut(q.as_ref()),
                            1 => at.get_mut(q.as_ref()).map(|a| &mut a.value),
                            _ => at.iter_mut().find(|a| a.name == q).map(|a| &mut a.value),
                        };
                        match slot { Some(s) => { *s = v; "ok".to_string() } None => "none".to_string() }
                    })
                }
                "id" => { sut(|| x!().set_id(o.t.as_str())); "ok".into() }
                "text" => {
                    if o.form % 2 == 0 { sut(|| x!().set_text(&o.t)) }
                    else { sut(|| { let mut t = x!().text_mut(); t.clear(); t.push_str(&o.t); }) }
                    "ok".into()
                }
                "tag" => {
                    if o.s.starts_with('@') { sut(|| x!().set_tag_name(&o.s[1..])) }
                    else { let a = ElementId::from_str(&o.s).unwrap(); sut(|| x!().set_tag_name(a)) }
                    "ok".into()
                }
                "drop" => { let d = doc.take(); sut(|| drop(d)); "ok".into() }
                _ => panic!("unknown op {}", o.op),
            }
        }));
        r.unwrap_or_else(|_| "panic".into())
    }

    /// Queries of one node, with calls from both ends mixed by the pattern `o.t` of f and b.
    fn query(&self, o: &Op) -> String {
        let t = &self.tab;
        let lim = t.0.len() * 2 + 4;
        let n = t.0[o.x - 1].clone();
        let pat: Vec<char> = o.t.chars().collect();
        let num = |n: &Node| t.num(Some(n));
        let edge = |e: NodeEdge<NodeData>| match e { NodeEdge::Start(n) => num(&n), NodeEdge::End(n) => -num(&n) };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let ch: Vec<i64> = n.children().take(lim).map(|n| num(&n)).collect();
            let chb: Vec<i64> = n.children().rev().take(lim).map(|n| num(&n)).collect();
            let mut it = n.children();
            let chm: Vec<i64> = pat.iter().map(|c| match if *c == 'f' { it.next() } else { it.next_back() } {
                Some(n) => num(&n), None => 0 }).collect();
            let de: Vec<i64> = n.descendants().take(lim).map(|n| num(&n)).collect();
            let tr: Vec<i64> = n.traverse().take(lim).map(&edge).collect();
            let trb: Vec<i64> = n.traverse().rev().take(lim).map(&edge).collect();
            let mut it = n.traverse();
            let trm: Vec<i64> = pat.iter().map(|c| match if *c == 'f' { it.next() } else { it.next_back() } {
                Some(e) => edge(e), None => 0 }).collect();
            let an: Vec<i64> = n.ancestors().take(lim).map(|n| num(&n)).collect();
            let pr: Vec<i64> = n.preceding_siblings().take(lim).map(|n| num(&n)).collect();
            let fo: Vec<i64> = n.following_siblings().take(lim).map(|n| num(&n)).collect();
            let sv: Vec<i64> = n.descendants().svg().take(lim).map(|(_, n)| num(&n)).collect();
            let se = self.doc.as_ref().and_then(|d| d.svg_element());
            format!("\"q\":{{\"ch\":{},\"chb\":{},\"chm\":{},\"de\":{},\"tr\":{},\"trb\":{},\"trm\":{},\"an\":{},\"pr\":{},\"fo\":{},\"sv\":{},\"rt\":{},\"hp\":{},\"hc\":{},\"se\":{},\"dr\":{}}}",
                ints(&ch), ints(&chb), ints(&chm), ints(&de), ints(&tr), ints(&trb), ints(&trm),
                ints(&an), ints(&pr), ints(&fo), ints(&sv),
                num(&n.root()), n.has_parent(), n.has_children(), t.num(se.as_ref()),
                self.doc.as_ref().map_or(0, |d| num(&d.root())))
        }));
        r.unwrap_or_else(|_| "\"q\":{\"panic\":true}".into())
    }

    /// Accessors of one node: what each way of asking for attribute `o.s` answers.
    fn access(&self, o: &Op) -> String {
        let n = &self.tab.0[o.x - 1];
        let r = catch_unwind(AssertUnwindSafe(|| {
            let at = n.attributes();
            let q: QName<AttributeId> = if o.s.starts_with('@') { QName::Name(o.s[1..].to_string()) }
                    else { QName::Id(AttributeId::from_str(&o.s).unwrap()) };
            let pos = |a: Option<&Attribute>| a.map_or(0, |a| at.iter().position(|b| std::ptr::eq(a, b)).map_or(-1, |i| i as i64 + 1));
            let vpos = |a: Option<&AttributeValue>| a.map_or(0, |a| at.iter().position(|b| std::ptr::eq(a, &b.value)).map_or(-1, |i| i as i64 + 1));
            let svg: Vec<i64> = at.iter().svg().map(|(_, a)| pos(Some(a))).collect();
            let typ = |n: &Node| [n.is_root(), n.is_element(), n.is_comment(), n.is_text(), n.is_svg_element(), n.has_id(), n.tag_id().is_some()]
                .iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
            let is: Vec<String> = at.iter().map(|a| is_what(a)).collect();
            let tn = crate::proj::tag(n);
            let same = if tn.starts_with('@') { n.has_tag_name(&tn[1..]) } else { n.has_tag_name(ElementId::from_str(&tn).unwrap()) };
            format!("\"q\":{{\"get\":{},\"val\":{},\"has\":{},\"con\":{},\"len\":{},\"emp\":{},\"svg\":{},\"typ\":\"{}\",\"tn\":{},\"tg\":{},\"is\":{}}}",
                pos(at.get(q.as_ref())), vpos(at.get_value(q.as_ref())), n.has_attribute(q.as_ref()), at.contains(q.as_ref()),
                at.len(), at.is_empty(), ints(&svg), typ(n), same, n.has_tag_name(ElementId::Tref), crate::json::strs(&is))
        }));
        r.unwrap_or_else(|_| "\"q\":{\"panic\":true}".into())
    }

    /// Textual forms of one node.
    fn show(&self, o: &Op) -> String {
        let n = &self.tab.0[o.x - 1];
        let r = catch_unwind(AssertUnwindSafe(|| {
            let at: Vec<String> = n.attributes().iter().map(|a| format!("{}", a)).collect();
            let av: Vec<String> = n.attributes().iter().map(|a| format!("{}", a.value)).collect();
            let w: Vec<i64> = n.linked_nodes().iter().map(|x| self.tab.num(Some(x))).collect();
            format!("\"q\":{{\"dis\":{},\"deb\":{},\"at\":{},\"av\":{},\"all\":{},\"alld\":{},\"us\":{}}}",
                esc(&format!("{}", n)), esc(&format!("{:?}", n)), crate::json::strs(&at), crate::json::strs(&av),
                esc(&format!("{}", *n.attributes())), esc(&format!("{:?}", *n.attributes())), ints(&w))
        }));
        r.unwrap_or_else(|_| "\"q\":{\"panic\":true}".into())
    }

    fn write(&self, o: &Op) -> String {
        let d = self.doc.as_ref().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| written(d, &o.s)));
        match r { Ok(s) => format!("\"q\":{{\"out\":{},\"vs\":{},{}}}", esc(&s), crate::parse::spelling(&self.tab.0, &o.s), crate::parse::reading(&s)), Err(_) => "\"q\":{\"panic\":true}".into() }
    }

    pub fn event(&mut self, o: &Op) -> String {
        match o.op.as_str() {
            "query" => format!("{{{},\"r\":\"ok\",\"d\":{},{}}}", o.json(), self.diff(), self.query(o)),
            "access" => format!("{{{},\"r\":\"ok\",\"d\":{},{}}}", o.json(), self.diff(), self.access(o)),
            "show" => format!("{{{},\"r\":\"ok\",\"d\":{},{}}}", o.json(), self.diff(), self.show(o)),
            "write" => format!("{{{},\"r\":\"ok\",\"d\":{},{}}}", o.json(), self.diff(), self.write(o)),
            _ => {
                let r = self.apply(o);
                format!("{{{},\"r\":\"{}\",\"d\":{}}}", o.json(), r, self.diff())
            }
        }
    }
}

/// The names of all the `is_*` predicates that hold for an attribute.
pub fn is_what(a: &Attribute) -> String {
    let v = &a.value;
    let l = [("none", a.is_none(), v.is_none()), ("inherit", a.is_inherit(), v.is_inherit()),
        ("current", a.is_current_color(), v.is_current_color()), ("aspect", a.is_aspect_ratio(), v.is_aspect_ratio()),
        ("color", a.is_color(), v.is_color()), ("length", a.is_length(), v.is_length()),
        ("lengths", a.is_length_list(), v.is_length_list()), ("angle", v.is_angle(), v.is_angle()),
        ("link", a.is_link(), v.is_link()), ("func", a.is_func_link(), v.is_func_link()),
        ("paint", a.is_paint(), v.is_paint()), ("number", a.is_number(), v.is_number()),
        ("numbers", a.is_number_list(), v.is_number_list()), ("path", a.is_path(), v.is_path()),
        ("points", a.is_points(), v.is_points()), ("string", a.is_string(), v.is_string()),
        ("transform", a.is_transform(), v.is_transform()), ("viewbox", a.is_viewbox(), v.is_viewbox()),
        ("+", a.is_link_container(), v.is_link_container())];
    l.iter().map(|(n, x, y)| format!("{}{}", if *x { n } else { "" }, if x != y { "!" } else { "" })).collect()
}

/// "quote indent attrindent", e.g. "d 4 0": d or s; 0-9 spaces, n none, t tabs
pub fn options(s: &str) -> WriteOptions {
    let c: Vec<char> = s.chars().collect();
    let ind = |c: char| match c { 'n' => Indent::None, 't' => Indent::Tabs, d => Indent::Spaces(d.to_digit(10).unwrap() as u8) };
    let mut o = WriteOptions::default();
    if c.len() >= 3 {
        o.use_single_quote = c[0] == 's';
        o.indent = ind(c[1]);
        o.attributes_indent = ind(c[2]);
        o.values = values(s);
    }
    o
}

/// The value options: letters after the third one.
pub fn values(s: &str) -> ValueWriteOptions {
    let f: String = s.chars().skip(3).collect();
    ValueWriteOptions {
        trim_hex_colors: f.contains('h'),
        remove_leading_zero: f.contains('z'),
        use_compact_path_notation: f.contains('c'),
        join_arc_to_flags: f.contains('j'),
        remove_duplicated_path_commands: f.contains('p'),
        use_implicit_lineto_commands: f.contains('l'),
        simplify_transform_matrices: f.contains('s'),
        list_separator: if f.contains(',') { ListSeparator::Comma } else if f.contains(';') { ListSeparator::CommaSpace } else { ListSeparator::Space },
    }
}

/// The output; no options: what Display gives.
pub fn written(d: &Document, o: &str) -> String {
    if o.is_empty() { d.to_string() } else { d.to_string_with_opt(&options(o)) }
}

// ---------------------------------------------------------------------------------------------

const TAGS: &[&str] = &["g", "rect", "svg", "linearGradient", "use", "text", "tspan", "@custom", "@x:y", "path"];
const LNAMES: &[&str] = &["fill", "stroke", "href", "filter", "clip-path", "mask", "marker-start", "@ref", "@fill", "x"];
const PNAMES: &[&str] = &["fill", "stroke", "href", "filter", "clip-path", "mask", "marker-start", "@ref", "@fill", "x",
    "opacity", "transform", "width", "space", "@data-a", "@b", "class", "unicode", "font-family", "y", "visibility"];
const MANY: &[&str] = &["accumulate", "azimuth", "bias", "by", "color", "cursor", "cx", "cy", "d", "direction", "display", "divisor",
    "dx", "dy", "end", "exponent", "fill", "filter", "format", "from", "fx", "fy", "g1", "g2", "height", "href", "in", "k", "k1", "k2",
    "mask", "max", "min", "mode", "offset", "opacity", "order", "stroke", "x1", "x2", "y1", "y2", "z", "@a", "@b", "@c", "@d", "@e", "@Z", "@z1"];
/// Strings that are hard to write.
const HARD: &[&str] = &["it's", "say \"x\"", "a<b", "a>b", "a&b", "&lt;", "&#x41;", "a\tb", "a\nb", "a\rb", " lead", "trail ", "", "]]>", "\u{e9}\u{2603}", "\u{a0}",
    "'\"'", "<!--", "-->", "\u{1d11e}", "a  b", "&&", "\n", " ", "\u{7f}\u{85}x", "\u{2028}\u{feff}", "\u{10ffff}\u{e000}", "\u{fffd}\u{200b}",
    "a very long string with \"quotes\", 'apostrophes', <tags>, &entities; and tabs\t, so that any limit on lengths shows"];
const VALUES: &[(&str, &str)] = &[("none", ""), ("inherit", ""), ("current", ""), ("string", "s1"), ("string", "s2"), ("string", ""),
    ("number", "1"), ("number", "0.5"), ("length", "10mm"), ("color", "#ff0000"), ("string", "it's \"q\" <&>"), ("transform", "matrix(2 0 0 2 0 0)")];
/// Values of all types, as they are written without any value options.
const NVALUES: &[(&str, &str)] = &[("number", "0.5"), ("number", "-0.25"), ("number", "7"), ("length", "0.1mm"), ("length", "-0.5em"), ("color", "#ff0000"), ("color", "#aabbcc"), ("color", "#a1b2c3"),
    ("transform", "matrix(2 0 0 2 0 0)"), ("transform", "matrix(1 0 0 1 0.5 10)"), ("numbers", "0.5 1 -0.5"), ("lengths", "0.5mm 10 -0.1%"), ("points", "0.5 1 -0.5 10 20 0.3"),
    ("path", "M 10 20 L 30 40 L 0.5 0.6 Z"), ("path", "M 0.1 0.2 A 1 2 0 0 1 0.5 -10 A 1 2 0 1 0 5 6"), ("viewbox", "0 0.5 10 0.25"), ("aspect", "xMinYMax slice"), ("angle", "0.5deg"),
    ("string", "0.5 #ff0000"), ("none", ""), ("inherit", ""), ("current", "")];
const TEXTS: &[&str] = &["a", "text", " sp ", "", "\n\t", "Text", "it's <b>", "\u{e9}\u{2603}"];
const FB: &[&str] = &["", "", "none", "currentColor", "#00ff00"];

struct Cfg { max: usize, len: usize, wide: bool, deep: bool, w: &'static [(&'static str, usize)] }

fn profile(p: &str) -> Cfg {
    match p {
        "tree" => Cfg { max: 9, len: 40, wide: false, deep: false, w: &[("create", 8), ("insert", 60), ("bad", 8), ("detach", 8), ("remove", 2), ("query", 14)] },
        "links" => Cfg { max: 7, len: 50, wide: false, deep: false, w: &[("create", 5), ("insert", 10), ("link", 45), ("plain", 12), ("unset", 10), ("id", 5), ("remove", 3), ("copy", 3), ("detach", 2), ("access", 4)] },
        "attrs" => Cfg { max: 4, len: 60, wide: false, deep: false, w: &[("create", 4), ("plain", 40), ("link", 12), ("unset", 14), ("amut", 6), ("many", 8), ("access", 12), ("show", 8), ("id", 3)] },
        "remove" => Cfg { max: 14, len: 45, wide: false, deep: false, w: &[("create", 25), ("insert", 30), ("link", 30), ("remove", 8), ("drain", 6), ("copy", 3), ("detach", 3), ("plain", 3)] },
        "copy" => Cfg { max: 22, len: 30, wide: false, deep: false, w: &[("create", 20), ("insert", 30), ("link", 20), ("plain", 8), ("id", 8), ("copy", 14), ("remove", 2), ("text", 3), ("query", 2)] },
        "wide" => Cfg { max: 60, len: 110, wide: true, deep: false, w: &[("create", 30), ("insert", 30), ("link", 20), ("remove", 4), ("drain", 3), ("copy", 2), ("query", 5), ("detach", 3), ("bad", 2)] },
        "deep" => Cfg { max: 45, len: 90, wide: false, deep: true, w: &[("create", 30), ("insert", 35), ("link", 10), ("remove", 2), ("drain", 2), ("copy", 2), ("query", 8), ("detach", 2), ("bad", 6)] },
        // many nodes that link to one, from above, below and beside
        "hub" => Cfg { max: 90, len: 220, wide: false, deep: false, w: &[("link", 18), ("unset", 10), ("plain", 10), ("insert", 14), ("remove", 4), ("drain", 2), ("copy", 5), ("query", 8), ("detach", 4), ("bad", 2), ("access", 3), ("show", 3), ("id", 2), ("amut", 2)] },
        // a chain, later rearranged
        "tower" => Cfg { max: 100, len: 150, wide: false, deep: true, w: &[("insert", 20), ("bad", 30), ("detach", 4), ("remove", 2), ("drain", 3), ("copy", 2), ("query", 12), ("link", 6), ("create", 3)] },
        "xml" => Cfg { max: 10, len: 30, wide: false, deep: false, w: &[("create", 25), ("insert", 30), ("link", 8), ("plain", 25), ("id", 8), ("text", 6), ("write", 12), ("remove", 1), ("tag", 2)] },
        // big ones to be written
        "page" => Cfg { max: 80, len: 230, wide: false, deep: false, w: &[("create", 6), ("insert", 12), ("link", 14), ("plain", 20), ("many", 40), ("id", 6), ("text", 6), ("write", 4), ("show", 6), ("tag", 3)] },
        // values of all types under any names
        "notation" => Cfg { max: 8, len: 34, wide: false, deep: false, w: &[("create", 12), ("insert", 16), ("link", 14), ("plain", 30), ("many", 12), ("write", 16)] },
        "write" => Cfg { max: 12, len: 34, wide: false, deep: false, w: &[("create", 25), ("insert", 30), ("link", 12), ("plain", 16), ("id", 6), ("text", 4), ("write", 10), ("remove", 2), ("show", 5)] },
        _ => Cfg { max: 14, len: 60, wide: false, deep: false, w: &[("create", 15), ("insert", 25), ("bad", 4), ("detach", 4), ("remove", 4), ("drain", 3), ("copy", 4), ("link", 20), ("plain", 10), ("unset", 6), ("id", 4), ("text", 3), ("tag", 3), ("query", 6), ("access", 3), ("show", 2), ("amut", 1)] },
    }
}

fn alive(w: &World, f: impl Fn(&Node) -> bool) -> Vec<usize> {
    (0..w.tab.0.len()).filter(|i| !w.tab.0[*i].is_detached() && f(&w.tab.0[*i])).map(|i| i + 1).collect()
}

fn is_anc(w: &World, a: usize, n: usize) -> bool {
    let mut c = Some(w.tab.0[n - 1].clone());
    let mut k = 0;
    while let Some(x) = c {
        if x == w.tab.0[a - 1] { return true; }
        k += 1;
        if k > w.tab.0.len() + 1 { return true; }
        c = x.parent();
    }
    false
}

/// The driver looks only at the real DOM, so that it stays meaningful on any implementation.
fn choose(w: &World, r: &mut Rng, c: &Cfg, what: &str, text_ok: bool) -> Option<Op> {
    let n = w.tab.0.len();
    let mut o = Op { form: r.below(5), ..Op::default() };
    match what {
        "create" => {
            if n >= c.max { return None; }
            if r.pct(if text_ok { 28 } else { 10 }) {
                o.op = "node".into();
                o.k = r.pick(&["text", "comment"]).into();
                o.t = r.pick(TEXTS).into();
                if o.k == "comment" { o.t = r.pick(&["c", "", " c ", "-"]).into(); }
            } else {
                o.op = "element".into();
                o.s = r.pick(TAGS).into();
            }
        }
        "insert" | "bad" => {
            o.op = r.pick(&["append", "prepend", "after", "before"]).into();
            let sib = o.op == "after" || o.op == "before";
            let mut tgt = alive(w, |x| !(sib && x.is_root()) && (sib || r_parent_ok(x)));
            if c.wide && !sib && r.pct(80) { tgt.truncate(3); }
            if tgt.is_empty() { return None; }
            o.x = r.pick(&tgt);
            if r.pct(10) {
                // texts and comments can have children too
                let odd: Vec<usize> = tgt.iter().cloned().filter(|i| !w.tab.0[*i - 1].is_element() && *i != 1).collect();
                if !odd.is_empty() { o.x = r.pick(&odd); }
            }
            if c.deep && !sib && r.pct(70) {
                // the deepest one
                o.x = *tgt.iter().max_by_key(|i| depth(w, **i)).unwrap();
            }
            let new = if what == "bad" { alive(w, |x| !x.is_root()).into_iter().filter(|y| is_anc(w, *y, o.x)).collect::<Vec<_>>() }
                      else { alive(w, |x| !x.is_root()).into_iter().filter(|y| !is_anc(w, *y, o.x)).collect() };
            if new.is_empty() { return None; }
            o.y = r.pick(&new);
            if what == "bad" && r.pct(40) { o.y = *new.iter().min_by_key(|i| depth(w, **i)).unwrap(); }
            if what == "insert" && r.pct(25) {
                // prefer an adjoining node: the places where pointers are rewritten around themselves
                let adj: Vec<usize> = new.iter().cloned().filter(|y| {
                    let x = &w.tab.0[o.x - 1];
                    let y = &w.tab.0[*y - 1];
                    y.parent().as_ref() == Some(x) || x.previous_sibling().as_ref() == Some(y) || x.next_sibling().as_ref() == Some(y)
                }).collect();
                if !adj.is_empty() { o.y = r.pick(&adj); }
            }
        }
        "detach" => {
            o.op = "detach".into();
            let v: Vec<usize> = (2..=n).collect();
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
        }
        "remove" => {
            o.op = "remove".into();
            let mut v = alive(w, |x| !x.is_root());
            if r.pct(5) { v = (2..=n).collect(); }
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
        }
        "drain" => {
            o.op = "drain".into();
            o.x = if r.pct(70) { 1 } else { r.pick(&alive(w, |_| true)) };
            o.k = r.pick(&["tag", "tag", "kind", "id", "attr", "attr", "used", "unused", "empty", "last", "all", "never"]).into();
            o.s = match o.k.as_str() {
                "tag" => r.pick(TAGS).into(),
                "kind" => r.pick(&["text", "comment", "element"]).into(),
                "id" => r.pick(&["i1", "i2", "i3"]).into(),
                "attr" => r.pick(LNAMES).into(),
                _ => String::new(),
            };
        }
        "copy" => {
            o.op = r.pick(&["copy", "deep"]).into();
            let v = alive(w, |x| !x.is_root());
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
            let size = preorder(&w.tab.0[o.x - 1], 500).len();
            if n + size > c.max + 12 { return None; }
        }
        "link" => {
            o.op = r.pick(&["set", "set", "set", "set", "setp", "setif"]).into();
            let v = alive(w, |x| x.is_element());
            if v.len() < 2 { return None; }
            o.x = r.pick(&v);
            o.y = r.pick(&v);
            if !r.pct(15) {
                let t = alive(w, |x| x.is_element() && x.has_id());
                if t.is_empty() { return None; }
                o.y = r.pick(&t);
            }
            o.k = "link".into();
            o.s = if c.wide || r.pct(30) { r.pick(MANY).into() } else { r.pick(LNAMES).into() };
            o.fb = r.pick(FB).into();
        }
        "plain" | "many" => {
            o.op = r.pick(&["set", "set", "setp", "setif"]).into();
            let v = alive(w, |x| x.is_element());
            if v.is_empty() { return None; }
            o.x = if what == "many" { v[r.below(v.len().min(if n > 15 { 3 } else { 1 }))] } else { r.pick(&v) };
            o.s = if what == "many" { r.pick(MANY).into() } else { r.pick(PNAMES).into() };
            let (k, t) = r.pick(VALUES);
            o.k = k.into();
            o.t = t.into();
        }
        "unset" | "amut" => {
            let v = alive(w, |x| x.is_element());
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
            o.op = what.into();
            let el = &w.tab.0[o.x - 1];
            let names: Vec<String> = el.attributes().iter()
                .filter(|a| what == "unset" || !a.is_link_container())
                .map(|a| crate::proj::aname(&a.name)).collect();
            if names.is_empty() || (what == "unset" && r.pct(15)) {
                if what == "amut" { return None; }
                o.s = r.pick(PNAMES).into();
            } else {
                o.s = r.pick(&names);
            }
            let (k, t) = r.pick(VALUES);
            if what == "amut" { o.k = k.into(); o.t = t.into(); }
        }
        "id" => {
            o.op = "id".into();
            let v = alive(w, |x| x.is_element());
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
            o.t = r.pick(&["i1", "i2", "i3", "i4", "i5", "i 6", " i7 ", "I1", "i01", ""]).into();
            if o.t.is_empty() && w.tab.0[o.x - 1].is_used() { return None; }
        }
        "text" => {
            o.op = "text".into();
            let v = alive(w, |x| x.is_text() || x.is_comment());
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
            o.t = r.pick(TEXTS).into();
            if w.tab.0[o.x - 1].is_comment() { o.t = r.pick(&["c2", "", "long comment"]).into(); }
        }
        "tag" => {
            o.op = "tag".into();
            let v = alive(w, |x| x.is_element());
            if v.is_empty() { return None; }
            o.x = r.pick(&v);
            o.s = r.pick(TAGS).into();
        }
        "query" => {
            o.op = "query".into();
            o.x = 1 + r.below(n);
            if r.pct(30) { o.x = 1; }
            let l = 2 + r.below(n.min(20) * 2 + 4);
            o.t = (0..l).map(|_| if r.pct(50) { 'f' } else { 'b' }).collect();
        }
        "access" | "show" => {
            o.op = what.into();
            o.x = 1 + r.below(n);
            o.s = r.pick(PNAMES).into();
        }
        "write" => {
            // The XML writer refuses text and comments outside of elements in some positions.
            o.op = "write".into();
            let root = &w.tab.0[0];
            if root.children().any(|c| c.is_text()) { return None; }
            if root.descendants().any(|c| !c.is_element() && !c.is_root() && c.has_children()) { return None; }
            o.s = format!("{}{}{}", r.pick(&["d", "s"]), r.pick(&["n", "0", "1", "4", "t"]), r.pick(&["n", "n", "0", "2", "t"]));
        }
        _ => return None,
    }
    Some(o)
}

/// Keeps the document writable as XML (one element at the top, legal names), and its strings hard to write.
fn hard(w: &World, r: &mut Rng, mut o: Op) -> Option<Op> {
    let top = |i: usize| w.tab.0[i - 1].parent().map_or(false, |p| p.is_root());
    match o.op.as_str() {
        "append" | "prepend" => if o.x == 1 || !w.tab.0[o.x - 1].is_element() || top(o.y) { return None; },
        "after" | "before" => if top(o.x) && !w.tab.0[o.y - 1].is_comment() || top(o.y) { return None; },
        "remove" => if top(o.x) { return None; },
        "tag" | "element" => { if top(o.x.max(1)) || o.s == "@x:y" { return None; } }
        "set" | "setp" | "setif" => {
            if o.s == "@fill" { return None; }
            if o.k != "link" && r.pct(60) { o.k = "string".into(); o.t = r.pick(HARD).into(); }
        }
        "id" => if !w.tab.0[o.x - 1].is_used() || !o.t.is_empty() { o.t = if r.pct(60) { r.pick(&["i1", "i2", "i3"]) } else { r.pick(HARD) }.into();
                    if o.t.is_empty() && w.tab.0[o.x - 1].is_used() { return None; } },
        "node" | "text" => {
            let c = if o.op == "node" { o.k == "comment" } else { w.tab.0[o.x - 1].is_comment() };
            o.t = r.pick(HARD).into();
            if c && (o.t.contains("--") || o.t.contains('\r')) || !c && o.t.contains('&') { return None; }
        }
        _ => {}
    }
    Some(o)
}

fn r_parent_ok(_x: &Node) -> bool { true }

fn depth(w: &World, i: usize) -> usize {
    let mut d = 0;
    let mut c = w.tab.0[i - 1].parent();
    while let Some(x) = c { d += 1; if d > 500 { break; } c = x.parent(); }
    d
}

/// Performs one random history and writes it down; returns the bytes that were not released in the end.
fn history(seed: u64, t: usize, name: &str, verbose: bool, out: &mut dyn Write) -> Option<isize> {
    let c = profile(name);
    let xml = name == "xml" || name == "page" || name == "notation";
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t as u64));
    let base = live();
    let mut w = World::new();
    let total: usize = c.w.iter().map(|x| x.1).sum();
    let len = if name == "tower" { 240 } else { c.len / 2 + r.below(c.len) };
    let mut k = 0;
    let mut tries = 0;
    // Give every history a few nodes with ids to work on.
    let start = if name == "tower" { 20 + r.below(70) } else if name == "hub" || name == "page" { 20 + r.below(50) } else if c.wide || c.deep { 8 } else { 2 + r.below(4) };
    let mut pre: Vec<Op> = Vec::new();
    for i in 0..start {
        let top = xml && i == 0;
        pre.push(Op { op: "element".into(), s: if top { "svg" } else { r.pick(TAGS) }.into(), ..Op::default() });
        if top { pre.push(Op { op: "append".into(), x: 1, y: 2, ..Op::default() }); continue; }
        if r.pct(70) { pre.push(Op { op: "id".into(), x: i + 2, t: if r.pct(10) { "I1".into() } else { format!("i{}", 1 + r.below(6)) }, ..Op::default() }); }
        if name == "tower" {
            pre.push(Op { op: r.pick(&["append", "prepend"]).into(), x: i + 1, y: i + 2, ..Op::default() });
            continue;
        }
        if name == "hub" {
            // a chain, a fan or anything
            let at = match t / 7 % 3 { 0 => i + 1, 1 => 1 + r.below(2).min(i), _ => 1 + r.below(i + 1) };
            pre.push(Op { op: if r.pct(80) { "append" } else { "prepend" }.into(), x: if r.pct(if t / 7 % 3 == 0 { 99 } else { 92 }) { at } else { 1 + r.below(i + 1) }, y: i + 2, ..Op::default() });
            continue;
        }
        if r.pct(if name == "page" { 92 } else { 60 }) { pre.push(Op { op: "append".into(), x: if xml { 2 } else { 1 } + r.below(if xml { i } else { i + 1 }), y: i + 2, ..Op::default() }); }
    }
    if name == "hub" {
        let h = 2 + r.below(start);
        pre.push(Op { op: "id".into(), x: h, t: "hub".into(), ..Op::default() });
        let n = if r.pct(20) { 5 * start / 2 } else { start };
        for _ in 0..n {
            let x = if r.pct(20) { 2 } else { 2 + r.below(start) };
            pre.push(Op { op: "set".into(), x, y: h, k: "link".into(), s: if r.pct(60) { r.pick(MANY) } else { r.pick(LNAMES) }.into(), fb: r.pick(FB).into(), form: r.below(5), ..Op::default() });
        }
    }
    let mut step = |w: &mut World, o: &Op, out: &mut dyn Write| -> bool {
        if verbose { writeln!(out, "{{\"try\":{{{}}}}}", o.json()).unwrap(); out.flush().unwrap(); }
        match catch_unwind(AssertUnwindSafe(|| w.event(o))) {
            Ok(e) => { writeln!(out, "{}", e).unwrap(); true }
            Err(_) => {
                // the state cannot even be read any more
                writeln!(out, "{{{},\"r\":\"unreadable\",\"d\":[]}}", o.json()).unwrap();
                false
            }
        }
    };
    while k < len && tries < len * 20 {
        tries += 1;
        let o = if !pre.is_empty() { Some(pre.remove(0)) } else {
            let mut z = r.below(total);
            let mut what = "";
            for (n, p) in c.w { if z < *p { what = n; break; } z -= p; }
            catch_unwind(AssertUnwindSafe(|| choose(&w, &mut r, &c, what, name == "write" || xml || name == "copy" || name == "mixed" || name == "remove" || name == "hub"))).unwrap_or(None)
        };
        let mut o = if xml && pre.is_empty() { o.and_then(|o| hard(&w, &mut r, o)) } else { o };
        if let (Some(o), "page") = (o.as_mut(), name) {
            // a href only at the very end
            if o.op.starts_with("set") && o.s == "href" && t / 4 % 2 == 0 {
                let l = preorder(&w.tab.0[0], 500);
                if let Some(e) = l.iter().rev().find(|e| e.is_element()) { o.x = w.tab.0.iter().position(|x| x == e).unwrap() + 1; }
            }
        }
        if let (Some(o), "notation") = (o.as_mut(), name) {
            if o.op.starts_with("set") && o.k != "link" { let (k, t) = r.pick(NVALUES); o.k = k.into(); o.t = t.into(); }
            if o.op == "write" { for x in "hzcjpls".chars() { if r.pct(40) { o.s.push(x); } } o.s.push_str(r.pick(&["", ",", ";"])); }
        }
        if let Some(o) = o {
            if !step(&mut w, &o, out) { std::mem::forget(w); return None; }
            k += 1;
        }
    }
    let d = Op { op: "drop".into(), ..Op::default() };
    if !step(&mut w, &d, out) { std::mem::forget(w); return None; }
    if verbose { writeln!(out, "{{\"try\":{{\"op\":\"free\"}}}}").unwrap(); out.flush().unwrap(); }
    if catch_unwind(AssertUnwindSafe(move || drop(w))).is_err() { return Some(-1); }
    Some(live() - base)
}

pub fn random(args: &[String], out: &mut impl Write) {
    let seed: u64 = args[0].parse().unwrap();
    let count: usize = args[1].parse().unwrap();
    let profiles: Vec<&str> = args[2].split(',').collect();
    let only: Option<usize> = args.get(3).map(|s| s.parse().unwrap());
    for t in 0..count {
        if only.is_some() && only != Some(t) { continue; }
        let name = profiles[t % profiles.len()];
        // Announce the trace first: when the code under test hangs or aborts, it is the culprit.
        writeln!(out, "{{\"t\":{},\"p\":\"{}\"}}", t, name).unwrap();
        out.flush().unwrap();
        let mut left = history(seed, t, name, only.is_some(), out);
        if left.unwrap_or(0) != 0 {
            // Memory kept once for all, by a cache, is not kept for each document: ask again.
            left = history(seed, t, name, false, &mut std::io::sink());
        }
        if let Some(n) = left {
            let f = Op { op: "free".into(), ..Op::default() };
            writeln!(out, "{{{},\"r\":\"{}\",\"d\":[]}}", f.json(), n).unwrap();
        }
    }
    out.flush().unwrap();
}

/// Input: one behaviour per line, {"p":"op;op;op"}; output: the results of all calls and the last state.
pub fn replay(path: &str, out: &mut impl Write) {
    for l in crate::lines(path) {
        let j = J::parse(&l);
        let mut w = World::new();
        let mut last = String::new();
        let mut answer = String::new();
        for s in j.get("p").str().split(';') {
            if s.is_empty() { continue; }
            let o = Op::parse(s);
            if o.op == "query" { answer = format!(",{}", w.query(&o)); last = "ok".into(); }
            else { last = w.apply(&o); }
        }
        match catch_unwind(AssertUnwindSafe(|| w.full())) {
            Ok(f) => writeln!(out, "{{\"r\":\"{}\",\"s\":{}{}}}", last, if answer.is_empty() { f } else { "[]".into() }, answer).unwrap(),
            Err(_) => writeln!(out, "{{\"r\":\"unreadable\",\"s\":[]}}").unwrap(),
        }
        out.flush().unwrap();
        let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
    }
}
