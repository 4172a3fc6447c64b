//! A small JSON reader (the sandbox has no need for a dependency here).
#[derive(Clone, Debug)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(v) = self { v.iter().find(|x| x.0 == k).map(|x| &x.1) } else { None } }
    pub fn num(&self, k: &str, d: f64) -> f64 { match self.get(k) { Some(J::Num(x)) => *x, Some(J::Bool(b)) => if *b { 1.0 } else { 0.0 }, _ => d } }
    pub fn str(&self, k: &str, d: &str) -> String { match self.get(k) { Some(J::Str(x)) => x.clone(), _ => d.to_string() } }
    pub fn bool(&self, k: &str) -> bool { matches!(self.get(k), Some(J::Bool(true))) }
    pub fn arr(&self, k: &str) -> Vec<J> { match self.get(k) { Some(J::Arr(v)) => v.clone(), _ => vec![] } }
    pub fn nums(&self, k: &str) -> Vec<f64> { self.arr(k).iter().map(|x| if let J::Num(y) = x { *y } else { 0.0 }).collect() }
}
pub fn parse(s: &str) -> Option<J> { let b: Vec<u8> = s.bytes().collect(); let mut i = 0; val(&b, &mut i) }
fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && (b[*i] as char).is_whitespace() { *i += 1; } }
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => { *i += 1; let mut v = vec![]; loop { ws(b, i); if *b.get(*i)? == b'}' { *i += 1; return Some(J::Obj(v)); }
            if b[*i] == b',' { *i += 1; continue; }
            let k = match val(b, i)? { J::Str(s) => s, _ => return None }; ws(b, i); if *b.get(*i)? != b':' { return None; } *i += 1; v.push((k, val(b, i)?)); } }
        b'[' => { *i += 1; let mut v = vec![]; loop { ws(b, i); if *b.get(*i)? == b']' { *i += 1; return Some(J::Arr(v)); }
            if b[*i] == b',' { *i += 1; continue; } v.push(val(b, i)?); } }
        b'"' => { *i += 1; let mut s = vec![]; while *b.get(*i)? != b'"' { if b[*i] == b'\\' { *i += 1; } s.push(*b.get(*i)?); *i += 1; } *i += 1; Some(J::Str(String::from_utf8(s).ok()?)) }
        b't' => { *i += 4; Some(J::Bool(true)) }
        b'f' => { *i += 5; Some(J::Bool(false)) }
        b'n' => { *i += 4; Some(J::Null) }
        _ => { let st = *i; while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { *i += 1; }
            std::str::from_utf8(&b[st..*i]).ok()?.parse().ok().map(J::Num) }
    }
}
