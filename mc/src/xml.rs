//! Minimal XML reader: enough for PhoneNumberMetadata.xml (comments, DOCTYPE
//! with an internal subset, attributes, text, the five entities).
#[derive(Debug, Clone, Default)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Node>,
    pub text: String,
}
impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn child(&self, k: &str) -> Option<&Node> {
        self.children.iter().find(|c| c.name == k)
    }
    pub fn all<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a Node> + 'a {
        self.children.iter().filter(move |c| c.name == k)
    }
}
fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}
pub fn parse(s: &str) -> Result<Node, String> {
    let b = s.as_bytes();
    let mut i = 0usize;
    let mut stack: Vec<Node> = vec![Node::default()];
    while i < b.len() {
        if b[i] == b'<' {
            let rest = &s[i..];
            if rest.starts_with("<!--") {
                i += rest.find("-->").ok_or("unterminated comment")? + 3;
            } else if rest.starts_with("<?") {
                i += rest.find("?>").ok_or("unterminated pi")? + 2;
            } else if rest.starts_with("<!DOCTYPE") {
                let close = rest.find("]>").ok_or("unterminated doctype")?;
                i += close + 2;
            } else if rest.starts_with("</") {
                let e = rest.find('>').ok_or("unterminated close")?;
                let name = rest[2..e].trim();
                let n = stack.pop().ok_or("underflow")?;
                if n.name != name {
                    return Err(format!("mismatched </{}> for <{}>", name, n.name));
                }
                stack.last_mut().ok_or("underflow")?.children.push(n);
                i += e + 1;
            } else {
                // open tag, quotes may contain '>'
                let mut j = i + 1;
                let mut q = 0u8;
                while j < b.len() {
                    if q != 0 {
                        if b[j] == q { q = 0; }
                    } else if b[j] == b'"' || b[j] == b'\'' {
                        q = b[j];
                    } else if b[j] == b'>' {
                        break;
                    }
                    j += 1;
                }
                if j >= b.len() { return Err("unterminated tag".into()); }
                let mut inner = &s[i + 1..j];
                let selfclose = inner.ends_with('/');
                if selfclose { inner = &inner[..inner.len() - 1]; }
                let inner = inner.trim();
                let ne = inner.find(|c: char| c.is_whitespace()).unwrap_or(inner.len());
                let mut node = Node { name: inner[..ne].to_string(), ..Default::default() };
                let mut a = inner[ne..].trim_start();
                while !a.is_empty() {
                    let eq = a.find('=').ok_or("attr without =")?;
                    let k = a[..eq].trim().to_string();
                    let r = a[eq + 1..].trim_start();
                    let qc = r.chars().next().ok_or("attr value")?;
                    let end = r[1..].find(qc).ok_or("attr quote")?;
                    node.attrs.push((k, unescape(&r[1..1 + end])));
                    a = r[end + 2..].trim_start();
                }
                i = j + 1;
                if selfclose {
                    stack.last_mut().ok_or("underflow")?.children.push(node);
                } else {
                    stack.push(node);
                }
            }
        } else {
            let e = s[i..].find('<').map(|x| i + x).unwrap_or(b.len());
            let t = unescape(&s[i..e]);
            stack.last_mut().ok_or("underflow")?.text.push_str(&t);
            i = e;
        }
    }
    if stack.len() != 1 { return Err("unclosed element".into()); }
    let root = stack.pop().unwrap();
    root.children.into_iter().next().ok_or_else(|| "no root".into())
}
