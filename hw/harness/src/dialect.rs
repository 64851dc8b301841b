//! Reference for the pattern dialect: parser and backtracking matcher, written independently of
//! the implementation. Patterns are concrete on every path, texts may be symbolic.

#[derive(Clone, Copy, PartialEq)]
pub struct Fl {
    pub i: bool,
    pub m: bool,
    pub s: bool,
    pub x: bool,
}
#[derive(Clone)]
pub struct Set {
    /// inclusive ranges
    pub r: Vec<(u32, u32)>,
    pub neg: bool,
    pub i: bool,
}
#[derive(Clone)]
pub enum N {
    Empty,
    Set(Set),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, u32, Option<u32>, bool),
    /// word boundary, not word boundary
    B,
    NotB,
    StartText,
    StartLine,
    EndText,
    /// end of line (multi-line `$` after its optional newline)
    EndLine,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    Syntax,
    Quantifier,
    Depth,
    /// left open
    Open,
}
pub const QUANTIFIER_MAX: u64 = 3000;
type P<T> = Result<T, Bad>;
struct Parser<'a> {
    c: &'a [char],
    p: usize,
    depth: usize,
    names: Vec<String>,
    over: bool,
}
const DENY: &str = "0123456789cgklopuxzABCEGKLNPQRUXZ";
fn complement(r: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut r = r.to_vec();
    r.sort();
    let mut out = vec![];
    let mut next = 0;
    for (a, b) in r {
        if a > next {
            out.push((next, a - 1));
        }
        if b + 1 > next {
            next = b + 1;
        }
    }
    if next <= 0x10ffff {
        out.push((next, 0x10ffff));
    }
    out
}
fn perl(c: char) -> Option<Vec<(u32, u32)>> {
    let d = vec![(48, 57)];
    let s = vec![(9, 13), (32, 32)];
    let w = vec![(48, 57), (65, 90), (95, 95), (97, 122)];
    let h = vec![(9, 9), (32, 32)];
    let v = vec![(10, 13)];
    Some(match c {
        'd' => d,
        'D' => complement(&d),
        's' => s,
        'S' => complement(&s),
        'w' => w,
        'W' => complement(&w),
        'h' => h,
        'H' => complement(&h),
        'v' => v,
        'V' => complement(&v),
        _ => return None,
    })
}
fn posix(n: &str) -> Option<Vec<(u32, u32)>> {
    Some(match n {
        "alnum" => vec![(48, 57), (65, 90), (97, 122)],
        "alpha" => vec![(65, 90), (97, 122)],
        "ascii" => vec![(0, 127)],
        "blank" => vec![(9, 9), (32, 32)],
        "cntrl" => vec![(0, 31), (127, 127)],
        "digit" => vec![(48, 57)],
        "graph" => vec![(33, 126)],
        "lower" => vec![(97, 122)],
        "print" => vec![(32, 126)],
        "punct" => vec![(33, 47), (58, 64), (91, 96), (123, 126)],
        "space" => vec![(9, 13), (32, 32)],
        "upper" => vec![(65, 90)],
        "word" => vec![(48, 57), (65, 90), (95, 95), (97, 122)],
        "xdigit" => vec![(48, 57), (65, 70), (97, 102)],
        _ => return None,
    })
}
impl<'a> Parser<'a> {
    fn peek(&self, k: usize) -> Option<char> {
        self.c.get(self.p + k).copied()
    }
    fn eat(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        if self.p + n <= self.c.len() && s.chars().enumerate().all(|(i, x)| self.c[self.p + i] == x) {
            self.p += n;
            true
        } else {
            false
        }
    }
    fn alternation(&mut self, fl: &mut Fl) -> P<N> {
        let mut v = vec![self.concat(fl)?];
        while self.eat("|") {
            v.push(self.concat(fl)?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) })
    }
    fn concat(&mut self, fl: &mut Fl) -> P<N> {
        let mut v = vec![];
        loop {
            match self.peek(0) {
                None | Some('|') | Some(')') => return Ok(N::Cat(v)),
                _ => {
                    let n = self.piece(fl)?;
                    v.push(n)
                }
            }
        }
    }
    fn piece(&mut self, fl: &mut Fl) -> P<N> {
        let start = self.p;
        // inline flags
        if self.eat("(?") {
            if let Some(f) = self.flags(*fl) {
                let any = self.p > start + 2;
                if self.eat(")") {
                    if !any || self.c[start + 2..self.p - 1].iter().all(|c| *c == '-') {
                        return Err(Bad::Syntax); // no flag at all
                    }
                    *fl = f;
                    return if self.quantifier()?.is_some() { Err(Bad::Syntax) } else { Ok(N::Empty) };
                }
                if self.eat(":") {
                    return self.group(f, start);
                }
            }
            self.p = start;
            if self.eat("(?<") || self.eat("(?P<") {
                return self.named('>', *fl);
            }
            if self.eat("(?'") {
                return self.named('\'', *fl);
            }
            return Err(Bad::Syntax);
        }
        if self.eat("(") {
            return self.group(*fl, start);
        }
        let n = self.atom(fl)?;
        match n {
            // an unescaped blank in extended mode
            None => {
                if self.quantifier()?.is_some() {
                    Err(Bad::Open)
                } else {
                    Ok(N::Empty)
                }
            }
            Some(n) => self.quantified(n),
        }
    }
    fn group(&mut self, mut fl: Fl, _start: usize) -> P<N> {
        self.depth += 1;
        if self.depth > 49 {
            return Err(Bad::Depth);
        }
        let n = self.alternation(&mut fl)?;
        if !self.eat(")") {
            return Err(Bad::Syntax);
        }
        self.depth -= 1;
        self.quantified(n)
    }
    fn named(&mut self, close: char, fl: Fl) -> P<N> {
        let mut name = String::new();
        while let Some(c) = self.peek(0) {
            if c.is_ascii_alphabetic() || c == '_' || (c.is_ascii_digit() && !name.is_empty()) {
                name.push(c);
                self.p += 1;
            } else {
                break;
            }
        }
        if name.is_empty() || self.peek(0) != Some(close) {
            return Err(Bad::Syntax);
        }
        self.p += 1;
        if self.names.contains(&name) {
            return Err(Bad::Syntax);
        }
        self.names.push(name);
        self.group(fl, 0)
    }
    fn flags(&mut self, mut f: Fl) -> Option<Fl> {
        let mut on = true;
        loop {
            match self.peek(0)? {
                'i' => f.i = on,
                'm' => f.m = on,
                's' => f.s = on,
                'x' => f.x = on,
                '-' if on => on = false,
                ')' | ':' => return Some(f),
                _ => return None,
            }
            self.p += 1;
        }
    }
    fn number(&mut self) -> Option<u64> {
        let s = self.p;
        let mut v: u64 = 0;
        while let Some(c) = self.peek(0) {
            if !c.is_ascii_digit() {
                break;
            }
            v = v.saturating_mul(10).saturating_add(c as u64 - 48);
            self.p += 1;
        }
        if self.p == s {
            None
        } else {
            Some(v)
        }
    }
    fn quantifier(&mut self) -> P<Option<(u32, Option<u32>, bool)>> {
        let start = self.p;
        let q = if self.eat("*") {
            Some((0, None))
        } else if self.eat("+") {
            Some((1, None))
        } else if self.eat("?") {
            Some((0, Some(1)))
        } else if self.eat("{") {
            match self.number() {
                None => None,
                Some(a) => {
                    if self.eat("}") {
                        Some((a, Some(a)))
                    } else if self.eat(",") {
                        if self.eat("}") {
                            Some((a, None))
                        } else {
                            match self.number() {
                                Some(b) if self.eat("}") => Some((a, Some(b))),
                                _ => None,
                            }
                        }
                    } else {
                        None
                    }
                }
            }
        } else {
            None
        };
        match q {
            None => {
                self.p = start; // a literal brace
                Ok(None)
            }
            Some((a, b)) => {
                let lazy = self.eat("?");
                if a > QUANTIFIER_MAX || b.map_or(false, |b| b > QUANTIFIER_MAX) {
                    self.over = true;
                    return Ok(Some((0, None, true)));
                }
                if let Some(b) = b {
                    if a > b {
                        return Err(Bad::Syntax);
                    }
                }
                Ok(Some((a as u32, b.map(|x| x as u32), !lazy)))
            }
        }
    }
    fn quantified(&mut self, n: N) -> P<N> {
        Ok(match self.quantifier()? {
            Some((a, b, g)) => {
                // doubled quantifiers are refused
                if matches!(self.peek(0), Some('*' | '+' | '?')) {
                    return Err(Bad::Syntax);
                }
                N::Rep(Box::new(n), a, b, g)
            }
            None => n,
        })
    }
    fn lit(&self, c: char, fl: &Fl) -> N {
        N::Set(Set { r: vec![(c as u32, c as u32)], neg: false, i: fl.i })
    }
    /// after a backslash: a single character
    fn escape(&mut self) -> P<char> {
        let c = match self.peek(0) {
            None => return Err(Bad::Syntax),
            Some(c) => c,
        };
        self.p += 1;
        Ok(match c {
            'c' => {
                let l = self.peek(0).ok_or(Bad::Syntax)?;
                if !l.is_ascii_alphabetic() {
                    return Err(Bad::Syntax);
                }
                self.p += 1;
                char::from_u32(l as u32 & 31).unwrap()
            }
            'a' => '\x07',
            'b' => '\x08',
            'e' => '\x1b',
            'f' => '\x0c',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'v' => '\x0b',
            'x' => {
                let mut v = 0u32;
                if self.peek(0) == Some('{') && self.c[self.p..].contains(&'}') {
                    self.p += 1;
                    let s = self.p;
                    while self.c[self.p] != '}' {
                        let d = self.c[self.p].to_digit(16).ok_or(Bad::Syntax)?;
                        v = v.checked_mul(16).ok_or(Bad::Syntax)? + d;
                        self.p += 1;
                    }
                    if s == self.p {
                        return Err(Bad::Syntax);
                    }
                    self.p += 1;
                } else {
                    for _ in 0..2 {
                        match self.peek(0).and_then(|d| d.to_digit(16)) {
                            Some(d) => {
                                v = v * 16 + d;
                                self.p += 1;
                            }
                            None => break,
                        }
                    }
                }
                char::from_u32(v).ok_or(Bad::Syntax)?
            }
            c if DENY.contains(c) => return Err(Bad::Syntax),
            c => c,
        })
    }
    /// None: ignored blank
    fn atom(&mut self, fl: &mut Fl) -> P<Option<N>> {
        if self.eat("\\Q") {
            let mut v = vec![];
            while !self.eat("\\E") {
                match self.peek(0) {
                    None => return Err(Bad::Syntax),
                    Some(c) => v.push(self.lit(c, fl)),
                }
                self.p += 1;
            }
            // a quantifier applies to the last character
            return Ok(Some(match v.pop() {
                None => N::Empty,
                Some(l) => {
                    let l = self.quantified(l)?;
                    v.push(l);
                    N::Cat(v)
                }
            }));
        }
        let c = self.peek(0).unwrap();
        match c {
            '\\' => {
                let e = self.peek(1).ok_or(Bad::Syntax)?;
                let n = match e {
                    'b' => Some(N::B),
                    'B' => Some(N::NotB),
                    'A' => Some(N::StartText),
                    'z' => Some(N::EndText),
                    'Z' => Some(N::Cat(vec![opt_newline(), N::EndText])),
                    _ => perl(e).map(|r| N::Set(Set { r, neg: false, i: fl.i })),
                };
                if let Some(n) = n {
                    self.p += 2;
                    return Ok(Some(n));
                }
                self.p += 1;
                let c = self.escape()?;
                Ok(Some(self.lit(c, fl)))
            }
            '^' => {
                self.p += 1;
                Ok(Some(if fl.m { N::StartLine } else { N::StartText }))
            }
            '$' => {
                self.p += 1;
                Ok(Some(N::Cat(vec![opt_newline(), if fl.m { N::EndLine } else { N::EndText }])))
            }
            '.' => {
                self.p += 1;
                let r = if fl.s { vec![(0, 0x10ffff)] } else { vec![(0, 9), (11, 0x10ffff)] };
                Ok(Some(N::Set(Set { r, neg: false, i: false })))
            }
            '[' => {
                self.p += 1;
                self.bracket(fl).map(Some)
            }
            '(' | ')' | '|' | '+' | '?' | '*' => Err(Bad::Syntax),
            c => {
                self.p += 1;
                if fl.x && matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0b' | '\x0c') {
                    return Ok(None);
                }
                Ok(Some(self.lit(c, fl)))
            }
        }
    }
    fn bracket_char(&mut self) -> P<char> {
        match self.peek(0) {
            None | Some(']') => Err(Bad::Syntax),
            Some('\\') => {
                self.p += 1;
                self.escape()
            }
            Some(c) => {
                self.p += 1;
                Ok(c)
            }
        }
    }
    fn bracket(&mut self, fl: &Fl) -> P<N> {
        let neg = self.eat("^");
        let mut r: Vec<(u32, u32)> = vec![];
        let mut any = false;
        if self.eat("]") {
            r.push((']' as u32, ']' as u32));
            any = true;
        }
        'items: loop {
            if self.eat("]") {
                break;
            }
            if self.peek(0).is_none() {
                return Err(Bad::Syntax);
            }
            if self.peek(0) == Some('\\') {
                if let Some(e) = self.peek(1) {
                    if let Some(s) = perl(e) {
                        r.extend(s);
                        self.p += 2;
                        any = true;
                        continue;
                    }
                }
                if self.eat("\\Q") {
                    while !self.eat("\\E") {
                        let c = self.peek(0).ok_or(Bad::Syntax)?;
                        r.push((c as u32, c as u32));
                        any = true;
                        self.p += 1;
                    }
                    continue;
                }
            }
            let save = self.p;
            if self.eat("[:") {
                let not = self.eat("^");
                let mut name = String::new();
                while let Some(c) = self.peek(0) {
                    if !c.is_ascii_lowercase() {
                        break;
                    }
                    name.push(c);
                    self.p += 1;
                }
                if let Some(s) = posix(&name) {
                    if self.eat(":]") {
                        r.extend(if not { complement(&s) } else { s });
                        any = true;
                        continue 'items;
                    }
                }
                self.p = save;
            }
            let lo = self.bracket_char()?;
            any = true;
            let save = self.p;
            if self.eat("-") {
                match self.bracket_char() {
                    Ok(hi) => {
                        if lo > hi {
                            return Err(Bad::Syntax);
                        }
                        r.push((lo as u32, hi as u32));
                        continue;
                    }
                    Err(_) => self.p = save,
                }
            }
            r.push((lo as u32, lo as u32));
        }
        if !any {
            return Err(Bad::Syntax);
        }
        Ok(N::Set(Set { r, neg, i: fl.i }))
    }
}
fn opt_newline() -> N {
    N::Rep(Box::new(N::Set(Set { r: vec![(10, 10)], neg: false, i: false })), 0, Some(1), true)
}
pub fn parse(p: &[char]) -> Result<N, Bad> {
    let mut q = Parser { c: p, p: 0, depth: 0, names: vec![], over: false };
    let n = q.alternation(&mut Fl { i: false, m: false, s: false, x: false })?;
    if q.p != p.len() {
        return Err(Bad::Syntax);
    }
    if q.over {
        return Err(Bad::Quantifier);
    }
    Ok(n)
}
/// least number of characters of a match; None: never matches
pub fn min_len(n: &N) -> Option<usize> {
    match n {
        N::Set(s) => {
            let none = if s.neg { complement(&s.r).is_empty() } else { s.r.is_empty() };
            if none {
                None
            } else {
                Some(1)
            }
        }
        N::Cat(v) => v.iter().map(min_len).sum(),
        N::Alt(v) => v.iter().filter_map(min_len).min(),
        N::Rep(n, a, _, _) => {
            if *a == 0 {
                Some(0)
            } else {
                min_len(n).map(|x| x * *a as usize)
            }
        }
        _ => Some(0),
    }
}
fn has(r: &[(u32, u32)], x: u32) -> bool {
    let mut f = false;
    for (a, b) in r {
        f |= if a == b { x == *a } else { (x >= *a) & (x <= *b) };
    }
    f
}
impl Set {
    pub fn has(&self, c: char) -> bool {
        let x = c as u32;
        let mut f = has(&self.r, x);
        if self.i {
            // case folding (patterns only contain ASCII letters under (?i))
            let lower = (x >= 97) & (x <= 122);
            let upper = (x >= 65) & (x <= 90);
            f |= lower & has(&self.r, x ^ 32);
            f |= upper & has(&self.r, x ^ 32);
            f |= (x == 0x212a) & (has(&self.r, 'k' as u32) | has(&self.r, 'K' as u32));
            f |= (x == 0x17f) & (has(&self.r, 's' as u32) | has(&self.r, 'S' as u32));
        }
        f != self.neg
    }
}
fn word(t: &[char], i: usize) -> bool {
    i < t.len() && (t[i].is_ascii_alphanumeric() | (t[i] == '_'))
}
fn boundary(t: &[char], i: usize) -> bool {
    let l = i > 0 && word(t, i - 1);
    l != word(t, i)
}
fn run(n: &N, t: &[char], i: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    match n {
        N::Empty => k(i),
        N::Set(s) => {
            if i < t.len() && s.has(t[i]) {
                k(i + 1)
            } else {
                None
            }
        }
        N::Cat(v) => cat(v, t, i, k),
        N::Alt(v) => {
            for a in v {
                if let Some(e) = run(a, t, i, k) {
                    return Some(e);
                }
            }
            None
        }
        N::Rep(b, lo, hi, greedy) => rep(b, *lo, *hi, *greedy, t, i, k),
        N::B => if boundary(t, i) { k(i) } else { None },
        N::NotB => if !boundary(t, i) { k(i) } else { None },
        N::StartText => if i == 0 { k(i) } else { None },
        N::EndText => if i == t.len() { k(i) } else { None },
        N::StartLine => if i == 0 || t[i - 1] == '\n' { k(i) } else { None },
        N::EndLine => if i == t.len() || t[i] == '\n' { k(i) } else { None },
    }
}
fn cat(v: &[N], t: &[char], i: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    match v.split_first() {
        None => k(i),
        Some((f, rest)) => run(f, t, i, &mut |j| cat(rest, t, j, k)),
    }
}
fn rep(b: &N, lo: u32, hi: Option<u32>, greedy: bool, t: &[char], i: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    if lo > 0 {
        return run(b, t, i, &mut |j| {
            // iterations that consume nothing satisfy any remaining minimum
            if j == i {
                rep(b, 0, Some(0), greedy, t, j, k)
            } else {
                rep(b, lo - 1, hi.map(|h| h - 1), greedy, t, j, k)
            }
        });
    }
    if hi == Some(0) {
        return k(i);
    }
    if !greedy {
        if let Some(e) = k(i) {
            return Some(e);
        }
    }
    let r = run(b, t, i, &mut |j| if j == i { None } else { rep(b, 0, hi.map(|h| h - 1), greedy, t, j, k) });
    if r.is_some() || !greedy {
        return r;
    }
    k(i)
}
/// leftmost match starting at or after `from`: character span
pub fn find(n: &N, t: &[char], from: usize) -> Option<(usize, usize)> {
    for s in from..=t.len() {
        if let Some(e) = run(n, t, s, &mut |j| Some(j)) {
            return Some((s, e));
        }
    }
    None
}
/// all successive matches
pub fn find_all(n: &N, t: &[char]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = 0;
    while let Some((s, e)) = find(n, t, p) {
        v.push((s, e));
        p = e;
    }
    v
}
