//! Reading what the client sent: HTTP requests, forms and multipart bodies, each by its specification.

#[derive(Debug, Clone, PartialEq)]
pub struct Wire {
    pub method: String,
    pub target: String,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

fn find(b: &[u8], t: &[u8]) -> Option<usize> {
    b.windows(t.len()).position(|w| w == t)
}

pub fn show(b: &[u8]) -> String {
    crate::fw::clip(&String::from_utf8_lossy(b), 600)
}

/// One request, strictly read.
pub fn request(b: &[u8]) -> Result<Wire, String> {
    let end = find(b, b"\r\n\r\n").ok_or_else(|| format!("no end of the head in {:?}", show(b)))?;
    let head = std::str::from_utf8(&b[..end]).map_err(|e| e.to_string())?;
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("");
    let parts: Vec<&str> = first.split(' ').collect();
    if parts.len() != 3 || parts.iter().any(|p| p.is_empty()) {
        return Err(format!("request line {:?}", first));
    }
    let mut headers = Vec::new();
    for line in lines {
        if line.contains(['\r', '\n']) {
            return Err(format!("line break inside header line {:?}", line));
        }
        let (n, v) = line.split_once(':').ok_or_else(|| format!("header line {:?}", line))?;
        if n.trim() != n {
            return Err(format!("blank before the colon of header line {:?}", line));
        }
        headers.push((n.to_string(), v.trim().to_string()));
    }
    Ok(Wire {
        method: parts[0].to_string(),
        target: parts[1].to_string(),
        version: parts[2].to_string(),
        headers,
        body: b[end + 4..].to_vec(),
    })
}

impl Wire {
    pub fn values(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
}

/// application/x-www-form-urlencoded, decoded.
pub fn form(body: &[u8]) -> Result<Vec<(String, String)>, String> {
    fn decode(b: &[u8]) -> Result<String, String> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'+' => out.push(b' '),
                b'%' => {
                    let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                    out.push(h.ok_or("bad percent sequence")?);
                    i += 2;
                }
                c if c.is_ascii_graphic() => out.push(c),
                c => return Err(format!("byte {} in a form body", c)),
            }
            i += 1;
        }
        String::from_utf8(out).map_err(|e| e.to_string())
    }
    if body.is_empty() {
        return Ok(Vec::new());
    }
    body.split(|c| *c == b'&')
        .map(|pair| {
            let (n, v) = match pair.iter().position(|c| *c == b'=') {
                Some(i) => (&pair[..i], &pair[i + 1..]),
                None => (pair, &[][..]),
            };
            Ok((decode(n)?, decode(v)?))
        })
        .collect()
}

#[derive(Debug, Clone, PartialEq)]
pub struct PartOf {
    pub name: String,
    pub file: Option<String>,
    pub data: Vec<u8>,
}

/// multipart/form-data by its boundary (RFC 2046): delimiter lines, an empty preamble and epilogue.
pub fn multipart(body: &[u8], boundary: &str) -> Result<Vec<PartOf>, String> {
    let delimiter = format!("\r\n--{}", boundary).into_bytes();
    let mut text = b"\r\n".to_vec();
    text.extend_from_slice(body);
    // the first delimiter may stand at the very beginning, with or without its line break
    let mut at = find(&text, &delimiter).ok_or("no delimiter in the body")?;
    if text[..at].iter().any(|c| !b"\r\n".contains(c)) {
        return Err(format!("text before the first delimiter: {:?}", show(&text[..at])));
    }
    let mut out = Vec::new();
    loop {
        let mut rest = &text[at + delimiter.len()..];
        if let Some(end) = rest.strip_prefix(b"--") {
            if !end.is_empty() && end != b"\r\n" {
                return Err(format!("text after the last delimiter: {:?}", show(end)));
            }
            return Ok(out);
        }
        rest = rest.strip_prefix(b"\r\n").ok_or("no line break after a delimiter")?;
        let next = find(rest, &delimiter).ok_or("a part without an end")?;
        let part = &rest[..next];
        let head = find(part, b"\r\n\r\n").ok_or("a part without an end of its head")?;
        let mut name = None;
        let mut file = None;
        for line in std::str::from_utf8(&part[..head]).map_err(|e| e.to_string())?.split("\r\n") {
            let (n, v) = line.split_once(':').ok_or("header line of a part")?;
            if n.eq_ignore_ascii_case("content-disposition") {
                let v = v.trim().strip_prefix("form-data").ok_or("not form-data")?;
                name = v.find("; name=\"").map(|i| &v[i + 8..]).and_then(|t| t.find('"').map(|j| t[..j].to_string()));
                file = v.find("; filename=\"").map(|i| &v[i + 12..]).and_then(|t| t.find('"').map(|j| t[..j].to_string()));
            }
        }
        out.push(PartOf {
            name: name.ok_or("a part without a name")?,
            file,
            data: part[head + 4..].to_vec(),
        });
        at = text.len() - rest.len() + next;
    }
}
