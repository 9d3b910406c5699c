//! Foreign writer: renders a reference document as text the way people and other
//! tools write it. Every layout freedom is taken from a finite list of choices,
//! so a plan stays shrinkable (no choices left = canonical layout).
use crate::model::*;

pub struct Choices<'a> {
    v: &'a [u8],
    i: usize,
}
impl<'a> Choices<'a> {
    pub fn new(v: &'a [u8]) -> Self {
        Choices { v, i: 0 }
    }
    /// next choice in 0..n; 0 once the list is used up
    fn next(&mut self, n: u8) -> u8 {
        let r = self.v.get(self.i).copied().unwrap_or(0) % n;
        self.i += 1;
        r
    }
    /// 1 in n
    fn one_in(&mut self, n: u8) -> bool {
        self.next(n) == n - 1
    }
}
struct W<'a> {
    o: String,
    c: Choices<'a>,
    crlf: bool,
    /// the text written so far ends inside a block scalar
    in_block: bool,
    /// ... that keeps its trailing line breaks
    keep: bool,
    /// indentation of the last block scalar's content
    block_indent: usize,
    /// the current line ends in a comment
    in_comment: bool,
    /// also the layouts of the known findings
    odd: bool,
}
const DEEP: usize = 60;

impl<'a> W<'a> {
    fn s(&mut self, t: &str) {
        self.in_block = false;
        self.keep = false;
        self.in_comment = false;
        self.o.push_str(t);
    }
    fn nl(&mut self) {
        self.o.push_str(if self.crlf { "\r\n" } else { "\n" });
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.o.push(' ');
        }
    }
    /// end the current line; sometimes blank lines follow
    fn eol(&mut self) {
        if !self.in_block && !self.in_comment && self.c.one_in(16) {
            self.o.push(' ');
        }
        self.nl();
        if !self.keep && self.c.one_in(10) {
            if !self.in_block && self.c.one_in(4) {
                self.o.push_str("  ");
            }
            self.nl();
        }
    }
    fn comment_line(&mut self, indent: usize, text: &str) {
        let n = match self.c.next(6) {
            4 if !self.in_block => 0,
            5 if !self.in_block => indent + 3,
            _ => indent,
        };
        self.sp(n);
        self.s("#");
        self.s(text);
        self.in_comment = true;
    }
    fn qparts(&mut self, q: &str, parts: &[QP], double: bool) {
        self.s(q);
        for p in parts {
            match p {
                QP::Text(t) => self.s(t),
                QP::Esc(c) => {
                    self.s(if double { "\\" } else { "'" });
                    let mut b = [0u8; 4];
                    let t = c.encode_utf8(&mut b).to_string();
                    self.s(&t);
                }
                QP::Blank(n) => {
                    for _ in 0..=*n {
                        self.o.push('\n')
                    }
                }
                QP::Nl => self.o.push('\n'),
            }
        }
        self.s(q);
    }
    fn flow_ws(&mut self, indent: usize, min: usize) {
        match self.c.next(12) {
            10 => {
                self.nl();
                let extra = self.c.next(4) as usize;
                self.sp(indent + 1 + extra);
            }
            9 => self.sp(2),
            8 => self.sp(min),
            _ => self.sp(1),
        }
    }
    fn flow(&mut self, n: &MNode, indent: usize) {
        match n {
            MNode::Map { ents, .. } => {
                self.s("{");
                for (i, e) in ents.iter().enumerate() {
                    if let Ent::Kv { key, val, .. } = e {
                        if i > 0 {
                            self.flow_ws(indent, 0);
                            self.s(",");
                        }
                        self.flow_ws(indent, 0);
                        self.s(key);
                        self.s(":");
                        self.flow_ws(indent, 1);
                        self.flow(val, indent);
                    }
                }
                self.flow_ws(indent, 0);
                self.s("}");
            }
            MNode::Seq { items, .. } => {
                self.s("[");
                for (i, e) in items.iter().enumerate() {
                    if let Item::El { val, .. } = e {
                        if i > 0 {
                            self.flow_ws(indent, 0);
                            self.s(",");
                        }
                        self.flow_ws(indent, 0);
                        self.flow(val, indent);
                    }
                }
                self.flow_ws(indent, 0);
                self.s("]");
            }
            MNode::Sc(Scalar::Plain(s)) => self.s(s),
            MNode::Sc(Scalar::Single(p)) => self.qparts("'", p, false),
            MNode::Sc(Scalar::Double(p)) => self.qparts("\"", p, true),
            MNode::Sc(Scalar::Block { .. }) => self.s("~"),
            MNode::Ref(a) => {
                self.s("*");
                self.s(a);
            }
        }
    }
    /// the part of a value that starts on the same line (after `key:` or `-`)
    fn value(
        &mut self,
        alias: &Option<String>,
        val: &MNode,
        indent: usize,
        parent_is_map: bool,
        list_first: bool,
    ) {
        let spaces = if self.c.one_in(12) { 2 } else { 1 };
        if let Some(a) = alias {
            self.sp(spaces);
            self.s("&");
            self.s(a);
        }
        match val {
            MNode::Map { flow: false, ents } => {
                if alias.is_none() && !parent_is_map && starts_with_entry(ents, self.odd) {
                    let s = if self.c.one_in(6) { 2 + self.c.next(2) as usize } else { 1 };
                    self.sp(s);
                    self.map(ents, indent + 1 + s, true);
                } else {
                    if alias.is_none() && !parent_is_map {
                        self.sp(1); // the subset wants a blank after the dash
                    }
                    self.eol();
                    let by = self.step();
                    self.map(ents, indent + by, false);
                }
            }
            MNode::Seq { flow: false, items } => {
                if alias.is_none() && !parent_is_map && starts_with_item(items, self.odd) {
                    let s = if self.c.one_in(6) { 2 } else { 1 };
                    self.sp(s);
                    self.seq(items, indent + 1 + s, true);
                } else {
                    if alias.is_none() && !parent_is_map {
                        self.sp(1);
                    }
                    self.eol();
                    let by = if parent_is_map && self.c.next(3) == 2 {
                        0
                    } else {
                        self.step()
                    };
                    self.seq(items, indent + by, false);
                }
            }
            MNode::Sc(Scalar::Block { folded, chomp, lines }) => {
                self.sp(spaces);
                self.s(if *folded { ">" } else { "|" });
                self.s(match chomp {
                    Chomp::Clip => "",
                    Chomp::Strip => "-",
                    Chomp::Keep => "+",
                });
                let by = self.step();
                let first = lines.iter().find(|l| !l.is_empty());
                let ind = indent + by;
                if first.map(|l| l.starts_with(' ')).unwrap_or(false)
                    || (!list_first && self.c.one_in(8))
                {
                    self.s(&by.to_string());
                }
                for l in lines {
                    self.nl();
                    if l.is_empty() {
                        match self.c.next(6) {
                            4 => self.sp(ind),
                            5 => self.sp(ind / 2),
                            _ => {}
                        }
                    } else {
                        self.sp(ind);
                        self.o.push_str(l);
                    }
                }
                self.in_block = true;
                self.keep = *chomp == Chomp::Keep;
                self.block_indent = ind;
            }
            other => {
                self.sp(spaces);
                self.flow(other, indent);
            }
        }
    }
    fn step(&mut self) -> usize {
        match self.c.next(8) {
            5 => 1,
            6 => 3,
            7 => 4,
            _ => 2,
        }
    }
    fn map(&mut self, ents: &[Ent], indent: usize, mut inline_first: bool) {
        let list_first = inline_first;
        let mut first = true;
        for e in ents {
            match e {
                Ent::C { text, inline: true } => {
                    let n = if self.c.one_in(5) { 3 } else { 1 };
                    self.sp(n);
                    self.s("#");
                    self.s(text);
                    self.in_comment = true;
                }
                Ent::C { text, inline: false } => {
                    if !first {
                        self.eol();
                    }
                    self.comment_line(indent, text);
                }
                Ent::Kv { key, alias, val } => {
                    if !inline_first {
                        if !first {
                            self.eol();
                        }
                        self.sp(indent);
                    }
                    self.s(key);
                    if self.c.one_in(40) {
                        self.s(" ");
                    }
                    self.s(":");
                    self.value(alias, val, indent, true, list_first && inline_first);
                    inline_first = false;
                }
            }
            first = false;
        }
    }
    fn seq(&mut self, items: &[Item], indent: usize, mut inline_first: bool) {
        let list_first = inline_first;
        let mut first = true;
        for e in items {
            match e {
                Item::C { text, inline: true } => {
                    let n = if self.c.one_in(5) { 3 } else { 1 };
                    self.sp(n);
                    self.s("#");
                    self.s(text);
                    self.in_comment = true;
                }
                Item::C { text, inline: false } => {
                    if !first {
                        self.eol();
                    }
                    self.comment_line(indent, text);
                }
                Item::El { alias, val } => {
                    if !inline_first {
                        if !first {
                            self.eol();
                        }
                        self.sp(indent);
                    }
                    self.s("-");
                    self.value(alias, val, indent, false, list_first && inline_first);
                    inline_first = false;
                }
            }
            first = false;
        }
    }
}
fn starts_with_entry(e: &[Ent], odd: bool) -> bool {
    matches!(e.first(), Some(Ent::Kv { val, .. }) if odd || !needs_indicator(val))
}
fn starts_with_item(e: &[Item], odd: bool) -> bool {
    match e.first() {
        Some(Item::El { .. }) if odd => true,
        Some(Item::El { val, .. }) if needs_indicator(val) => false,
        // `- - - x` followed by an item of the middle list: known finding
        Some(Item::El { alias: None, val: MNode::Seq { flow: false, items } }) => {
            items.iter().filter(|i| matches!(i, Item::El { .. })).count() > 1
        }
        Some(Item::El { .. }) => true,
        _ => false,
    }
}
/// a block scalar whose indentation cannot be detected from its first line
pub fn needs_indicator(n: &MNode) -> bool {
    match n {
        MNode::Sc(Scalar::Block { lines, .. }) => {
            lines.iter().find(|l| !l.is_empty()).map_or(false, |l| l.starts_with(' '))
        }
        _ => false,
    }
}

pub fn write_doc(d: &MDoc, layout: &[u8]) -> String {
    write(d, layout, false)
}
/// with the layouts the generator avoids, because the library is known to misread them
pub fn write_odd(d: &MDoc, layout: &[u8]) -> String {
    write(d, layout, true)
}
fn write(d: &MDoc, layout: &[u8], odd: bool) -> String {
    let mut w = W {
        o: String::new(),
        c: Choices::new(layout),
        crlf: false,
        in_block: false,
        keep: false,
        block_indent: 0,
        in_comment: false,
        odd,
    };
    w.crlf = w.c.one_in(12) && !has_quoted_break(&d.root);
    for c in &d.lead {
        w.s("#");
        w.s(c);
        w.in_comment = true;
        w.eol();
    }
    w.s("---");
    w.eol();
    for c in &d.pre {
        w.comment_line(0, c);
        w.eol();
    }
    match &d.root {
        MNode::Map { flow: false, ents } => {
            let ind = if w.c.one_in(12) { 2 } else { 0 };
            w.map(ents, ind, false)
        }
        MNode::Seq { flow: false, items } => {
            let ind = if w.c.one_in(12) { 2 } else { 0 };
            w.seq(items, ind, false)
        }
        other => w.flow(other, 0),
    }
    for c in &d.post {
        w.eol();
        w.comment_line(0, c);
    }
    match w.c.next(4) {
        _ if w.keep => w.nl(),
        0 | 1 => w.nl(),
        2 => {
            w.nl();
            w.nl()
        }
        _ => {}
    }
    w.o
}
fn has_quoted_break(n: &MNode) -> bool {
    let q = |p: &[QP]| p.iter().any(|x| matches!(x, QP::Nl | QP::Blank(_) | QP::Esc('\n')));
    match n {
        MNode::Map { ents, .. } => ents.iter().any(|e| match e {
            Ent::Kv { val, .. } => has_quoted_break(val),
            _ => false,
        }),
        MNode::Seq { items, .. } => items.iter().any(|e| match e {
            Item::El { val, .. } => has_quoted_break(val),
            _ => false,
        }),
        MNode::Sc(Scalar::Single(p)) | MNode::Sc(Scalar::Double(p)) => q(p),
        _ => false,
    }
}

// -------------------------------------------------------------------- domain
fn is_zs(c: char) -> bool {
    matches!(c, ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
pub fn valid_key(k: &str) -> bool {
    let mut it = k.chars();
    match it.next() {
        Some(c) if c == '_' || c.is_alphanumeric() => {}
        _ => return false,
    }
    it.all(|c| c == '_' || c == '-' || c == ' ' || c.is_alphanumeric()) && !k.ends_with(' ')
}
pub fn valid_name(k: &str) -> bool {
    !k.is_empty() && k.chars().all(|c| c == '_' || c.is_alphanumeric())
}
pub fn valid_plain(s: &str, flow: bool) -> bool {
    let Some(f) = s.chars().next() else { return false };
    if "[]{}\"'#>|*&,".contains(f) || is_zs(f) || f == '\t' {
        return false;
    }
    if s.ends_with(' ') || s.ends_with(':') || s.ends_with(is_zs) || s.ends_with('\t') {
        return false;
    }
    if s == "-" || s.starts_with("- ") || s.contains('#') {
        return false;
    }
    if s.starts_with(':') || s.starts_with('-') && s[1..].starts_with(is_zs) {
        return false;
    }
    if s.contains(|c: char| c == '\n' || c == '\r') {
        return false;
    }
    // a colon in front of white space ends a key
    if s.char_indices().any(|(i, c)| c == ':' && s[i + 1..].starts_with(is_zs)) {
        return false;
    }
    if flow && s.contains(|c: char| ",[]{}\">|".contains(c)) {
        return false;
    }
    true
}
pub fn valid_comment(s: &str) -> bool {
    !s.contains(|c: char| c == '\n' || c == '\r')
}
fn valid_parts(p: &[QP], double: bool) -> bool {
    let mut brk = false;
    for x in p {
        match x {
            QP::Text(t) => {
                if t.is_empty() || t.contains(|c: char| c == '\n' || c == '\r') {
                    return false;
                }
                if double && t.contains(|c: char| c == '"' || c == '\\') {
                    return false;
                }
                if !double && t.contains('\'') {
                    return false;
                }
                brk = false;
            }
            QP::Esc(c) => {
                if double && !"n\\rt\"\n".contains(*c) || !double && *c != '\'' {
                    return false;
                }
                brk = false;
            }
            QP::Blank(0) => return false,
            QP::Blank(_) | QP::Nl => {
                if brk {
                    return false;
                }
                brk = true;
            }
        }
    }
    !p.windows(2).any(|w| matches!((&w[0], &w[1]), (QP::Text(_), QP::Text(_))))
}
pub fn valid_block_lines(lines: &[String]) -> bool {
    let Some(first) = lines.iter().find(|l| !l.is_empty()) else { return false };
    if lines.iter().any(|l| l.contains(|c: char| c == '\n' || c == '\r')) {
        return false;
    }
    // a line of blanks only is ambiguous as the first one
    !first.trim().is_empty() && !first.starts_with(|c: char| c != ' ' && is_zs(c))
}
pub fn valid_node(n: &MNode, flow_ctx: bool, depth: usize) -> bool {
    if depth > DEEP {
        return false;
    }
    match n {
        MNode::Map { flow, ents } => {
            if flow_ctx && !flow {
                return false;
            }
            if !*flow && !ents.iter().any(|e| matches!(e, Ent::Kv { .. })) {
                return false;
            }
            let mut prev_leaf = false;
            for e in ents {
                match e {
                    Ent::C { text, inline } => {
                        if *flow || !valid_comment(text) || (*inline && !prev_leaf) {
                            return false;
                        }
                        prev_leaf = false;
                    }
                    Ent::Kv { key, alias, val } => {
                        if !valid_key(key) || !valid_node(val, *flow, depth + 1) {
                            return false;
                        }
                        if let Some(a) = alias {
                            if *flow || !valid_name(a) || matches!(val, MNode::Ref(_)) {
                                return false;
                            }
                        }
                        prev_leaf = is_leaf(val);
                    }
                }
            }
            true
        }
        MNode::Seq { flow, items } => {
            if flow_ctx && !flow {
                return false;
            }
            if !*flow && !items.iter().any(|e| matches!(e, Item::El { .. })) {
                return false;
            }
            let mut prev_leaf = false;
            for e in items {
                match e {
                    Item::C { text, inline } => {
                        if *flow || !valid_comment(text) || (*inline && !prev_leaf) {
                            return false;
                        }
                        prev_leaf = false;
                    }
                    Item::El { alias, val } => {
                        if !valid_node(val, *flow, depth + 1) {
                            return false;
                        }
                        if let Some(a) = alias {
                            if *flow || !valid_name(a) || matches!(val, MNode::Ref(_)) {
                                return false;
                            }
                        }
                        prev_leaf = is_leaf(val);
                    }
                }
            }
            true
        }
        MNode::Sc(Scalar::Plain(s)) => valid_plain(s, flow_ctx),
        MNode::Sc(Scalar::Single(p)) => valid_parts(p, false),
        MNode::Sc(Scalar::Double(p)) => valid_parts(p, true),
        MNode::Sc(Scalar::Block { lines, .. }) => !flow_ctx && valid_block_lines(lines),
        MNode::Ref(a) => valid_name(a),
    }
}
/// written on one logical line, so a comment can follow it
pub fn is_leaf(n: &MNode) -> bool {
    match n {
        MNode::Map { flow, .. } | MNode::Seq { flow, .. } => *flow,
        MNode::Sc(Scalar::Block { .. }) => false,
        _ => true,
    }
}
pub fn valid_doc(d: &MDoc) -> bool {
    let root_ok = matches!(d.root, MNode::Map { .. } | MNode::Seq { .. });
    root_ok
        && valid_node(&d.root, false, 0)
        && d.lead.iter().chain(&d.pre).chain(&d.post).all(|c| valid_comment(c))
}
