//! Projection of the real DOM onto the variables of the specification.
use svgdom::*;
use crate::json::{esc, ints};

pub fn tag(n: &Node) -> String {
    match *n.tag_name() {
        QName::Id(id) => id.as_str().to_string(),
        QName::Name(ref s) => format!("@{}", s),
    }
}

pub fn aname(n: &QName<AttributeId>) -> String {
    match *n {
        QName::Id(id) => id.as_str().to_string(),
        QName::Name(ref s) => format!("@{}", s),
    }
}

pub fn kind(n: &Node) -> &'static str {
    match n.node_type() {
        NodeType::Root => "root",
        NodeType::Element => "element",
        NodeType::Comment => "comment",
        NodeType::Text => "text",
    }
}


/// kind, text, link target, fallback
pub fn value(v: &AttributeValue) -> (&'static str, String, Option<Node>, String) {
    value_opt(v, &ValueWriteOptions::default())
}

pub fn value_opt(v: &AttributeValue, opt: &ValueWriteOptions) -> (&'static str, String, Option<Node>, String) {
    use AttributeValue as V;
    struct W<'a>(&'a ValueWriteOptions);
    impl<'a> W<'a> {
        fn wb<T: WriteBuffer + ?Sized>(&self, v: &T) -> String {
            let mut b = Vec::new();
            v.write_buf_opt(self.0, &mut b);
            String::from_utf8(b).unwrap()
        }
    }
    let w = W(opt);
    let p = |k: &'static str, s: String| (k, s, None, String::new());
    match v {
        V::None => p("none", String::new()),
        V::Inherit => p("inherit", String::new()),
        V::CurrentColor => p("current", String::new()),
        V::AspectRatio(x) => p("aspect", w.wb(x)),
        V::Color(x) => p("color", w.wb(x)),
        V::Length(x) => p("length", w.wb(x)),
        V::LengthList(x) => p("lengths", w.wb(&x.0)),
        V::Angle(x) => p("angle", w.wb(x)),
        V::Number(x) => p("number", w.wb(x)),
        V::NumberList(x) => p("numbers", w.wb(&x.0)),
        V::Path(x) => p("path", w.wb(x)),
        V::Points(x) => p("points", w.wb(&x.0)),
        V::Transform(x) => p("transform", w.wb(x)),
        V::ViewBox(x) => p("viewbox", w.wb(x)),
        V::String(x) => p("string", x.clone()),
        V::Link(n) => ("link", String::new(), Some(n.clone()), String::new()),
        V::FuncLink(n) => ("func", String::new(), Some(n.clone()), String::new()),
        V::Paint(n, f) => ("paint", String::new(), Some(n.clone()), match f {
            None => String::new(),
            Some(PaintFallback::None) => "none".into(),
            Some(PaintFallback::CurrentColor) => "currentColor".into(),
            Some(PaintFallback::Color(c)) => w.wb(c),
        }),
    }
}

pub struct Table(pub Vec<Node>);

impl Table {
    /// 0: no node, -1: a node nobody has created
    pub fn num(&self, n: Option<&Node>) -> i64 {
        match n {
            None => 0,
            Some(n) => self.0.iter().position(|x| x == n).map_or(-1, |i| i as i64 + 1),
        }
    }

    pub fn attrs(&self, n: &Node) -> String {
        let v: Vec<String> = n.attributes().iter().map(|a| {
            let (k, t, to, fb) = value(&a.value);
            format!("{{\"n\":{},\"k\":\"{}\",\"t\":{},\"to\":{},\"fb\":{}}}",
                esc(&aname(&a.name)), k, esc(&t), self.num(to.as_ref()), esc(&fb))
        }).collect();
        format!("[{}]", v.join(","))
    }

    pub fn users(&self, n: &Node) -> Vec<i64> {
        n.linked_nodes().iter().map(|x| self.num(Some(x))).collect()
    }

    pub fn node(&self, n: &Node) -> String {
        let mut kids = Vec::new();
        let mut c = n.first_child();
        while let Some(x) = c {
            kids.push(self.num(Some(&x)));
            if kids.len() > self.0.len() + 2 { kids.push(-2); break; } // a cycle
            c = x.next_sibling();
        }
        format!("{{\"k\":\"{}\",\"tag\":{},\"id\":{},\"tx\":{},\"par\":{},\"fc\":{},\"lc\":{},\"ps\":{},\"ns\":{},\"kids\":{},\"at\":{},\"us\":{},\"uc\":{},\"iu\":{},\"lv\":{}}}",
            kind(n), esc(&tag(n)), esc(&n.id()), esc(&n.text()),
            self.num(n.parent().as_ref()), self.num(n.first_child().as_ref()), self.num(n.last_child().as_ref()),
            self.num(n.previous_sibling().as_ref()), self.num(n.next_sibling().as_ref()),
            ints(&kids), self.attrs(n), ints(&self.users(n)), n.uses_count(), n.is_used(), !n.is_detached())
    }
}

/// Pre-order list of a subtree that survives a broken tree.
pub fn preorder(n: &Node, limit: usize) -> Vec<Node> {
    fn rec(n: &Node, limit: usize, out: &mut Vec<Node>, depth: usize) {
        if out.len() > limit || depth > 5000 { return; }
        out.push(n.clone());
        let mut c = n.first_child();
        while let Some(x) = c {
            if out.len() > limit { return; }
            rec(&x, limit, out, depth + 1);
            c = x.next_sibling();
        }
    }
    let mut v = Vec::new();
    rec(n, limit, &mut v, 0);
    v
}
