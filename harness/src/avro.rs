//! A reader of Avro object container files written from the specification, driven by the schema in the file.

use serde_json::Value as Json;

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Null,
    Bool(bool),
    Long(i64),
    Bits(u64),
    Bytes(Vec<u8>),
    Str(String),
    Arr(Vec<A>),
    Map(Vec<(String, A)>),
    Rec(Vec<(String, A)>),
}

impl A {
    pub fn field(&self, name: &str) -> Result<&A, String> {
        match self {
            A::Rec(f) => {
                let mut found = f.iter().filter(|(n, _)| n == name);
                match (found.next(), found.next()) {
                    (Some((_, v)), None) => Ok(v),
                    _ => Err(format!("no field, or two fields, {} in a row", name)),
                }
            }
            _ => Err("a row that is no record".to_string()),
        }
    }
    pub fn text(&self, name: &str) -> Result<&str, String> {
        match self.field(name)? {
            A::Str(s) => Ok(s),
            v => Err(format!("field {} is {:?}", name, v)),
        }
    }
    pub fn long(&self, name: &str) -> Result<i64, String> {
        match self.field(name)? {
            A::Long(i) => Ok(*i),
            v => Err(format!("field {} is {:?}", name, v)),
        }
    }
}

/// What a file holds.
#[derive(Debug, Default)]
pub struct File {
    pub rows: Vec<A>,
    /// rows of each block
    pub blocks: Vec<usize>,
    /// bytes of an unfinished block at the end
    pub tail: usize,
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.i < n {
            return Err(format!("ends at {} within {} bytes", self.b.len(), n));
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn long(&mut self) -> Result<i64, String> {
        let mut z: u64 = 0;
        for n in 0..10 {
            let byte = self.take(1)?[0];
            if n == 9 && byte > 1 {
                return Err(format!("a number of more than 64 bits at {}", self.i));
            }
            z |= ((byte & 0x7f) as u64) << (7 * n);
            if byte & 0x80 == 0 {
                return Ok((z >> 1) as i64 ^ -((z & 1) as i64));
            }
        }
        Err(format!("a number of more than 10 bytes at {}", self.i))
    }
    fn bytes(&mut self) -> Result<&'a [u8], String> {
        let n = self.long()?;
        let n = usize::try_from(n).map_err(|_| format!("length {} at {}", n, self.i))?;
        self.take(n)
    }
    fn string(&mut self) -> Result<String, String> {
        let at = self.i;
        String::from_utf8(self.bytes()?.to_vec()).map_err(|_| format!("a string that is not UTF-8 at {}", at))
    }
    /// blocks of items, ended by an empty one
    fn items(&mut self, mut item: impl FnMut(&mut Self) -> Result<(), String>) -> Result<(), String> {
        loop {
            let n = self.long()?;
            if n == 0 {
                return Ok(());
            }
            let count = n.unsigned_abs();
            let size = if n < 0 { Some(self.long()?) } else { None };
            let at = self.i;
            for _ in 0..count {
                item(self)?;
            }
            if size.is_some_and(|s| s != (self.i - at) as i64) {
                return Err(format!("a block of items at {} is not as long as it says", at));
            }
        }
    }
    fn value(&mut self, s: &Json) -> Result<A, String> {
        let kind = match s {
            Json::String(k) => k.as_str(),
            Json::Object(o) => match o.get("type") {
                Some(Json::String(k)) => k.as_str(),
                Some(inner) => return self.value(inner),
                None => return Err("a schema without a type".to_string()),
            },
            Json::Array(union) => {
                let i = self.long()?;
                let branch = usize::try_from(i).ok().and_then(|i| union.get(i)).ok_or_else(|| format!("branch {} of a union", i))?;
                return self.value(branch);
            }
            _ => return Err(format!("schema {}", s)),
        };
        Ok(match kind {
            "null" => A::Null,
            "boolean" => match self.take(1)?[0] {
                0 => A::Bool(false),
                1 => A::Bool(true),
                b => return Err(format!("a boolean of {} at {}", b, self.i)),
            },
            "int" => {
                let i = self.long()?;
                if i32::try_from(i).is_err() {
                    return Err(format!("an int of {}", i));
                }
                A::Long(i)
            }
            "long" => A::Long(self.long()?),
            "float" => A::Bits(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as u64),
            "double" => A::Bits(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            "bytes" => A::Bytes(self.bytes()?.to_vec()),
            "string" => A::Str(self.string()?),
            "array" => {
                let mut v = Vec::new();
                self.items(|r| {
                    v.push(r.value(&s["items"])?);
                    Ok(())
                })?;
                A::Arr(v)
            }
            "map" => {
                let mut v = Vec::new();
                self.items(|r| {
                    let k = r.string()?;
                    v.push((k, r.value(&s["values"])?));
                    Ok(())
                })?;
                A::Map(v)
            }
            "record" => {
                let mut v = Vec::new();
                for f in s["fields"].as_array().ok_or("a record schema without fields")? {
                    let name = f["name"].as_str().ok_or("a field without a name")?.to_string();
                    v.push((name, self.value(&f["type"])?));
                }
                A::Rec(v)
            }
            k => return Err(format!("a schema of type {}", k)),
        })
    }
}

/// Reads a whole file; `cut` allows an unfinished block at its end.
pub fn read(b: &[u8], cut: bool) -> Result<File, String> {
    let mut r = R { b, i: 0 };
    if r.take(4)? != b"Obj\x01" {
        return Err("does not start as an Avro file".to_string());
    }
    let mut meta: Vec<(String, Vec<u8>)> = Vec::new();
    r.items(|r| {
        let k = r.string()?;
        meta.push((k, r.bytes()?.to_vec()));
        Ok(())
    })?;
    let get = |k: &str| meta.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    match get("avro.codec").as_deref() {
        None | Some(b"null") => {}
        Some(c) => return Err(format!("codec {:?}", String::from_utf8_lossy(c))),
    }
    let schema: Json = serde_json::from_slice(&get("avro.schema").ok_or("no schema")?).map_err(|e| format!("schema: {}", e))?;
    let sync = r.take(16)?.to_vec();
    let mut out = File::default();
    while r.i < b.len() {
        let at = r.i;
        match block(&mut r, &schema, &sync) {
            Ok(rows) => {
                out.blocks.push(rows.len());
                out.rows.extend(rows);
            }
            Err(Bad::Cut(_)) if cut => {
                out.tail = b.len() - at;
                break;
            }
            Err(Bad::Cut(e) | Bad::Wrong(e)) => return Err(format!("block {} at byte {}: {}", out.blocks.len(), at, e)),
        }
    }
    Ok(out)
}

enum Bad {
    /// the file ends before the block does
    Cut(String),
    Wrong(String),
}

fn block(r: &mut R, schema: &Json, sync: &[u8]) -> Result<Vec<A>, Bad> {
    let count = r.long().map_err(Bad::Cut)?;
    let size = r.long().map_err(Bad::Cut)?;
    if count < 0 || size < 0 {
        return Err(Bad::Wrong(format!("count {} and size {}", count, size)));
    }
    let data = r.take(size as usize).map_err(Bad::Cut)?;
    let mut inner = R { b: data, i: 0 };
    let mut rows = Vec::new();
    for _ in 0..count {
        rows.push(inner.value(schema).map_err(Bad::Wrong)?);
    }
    if inner.i != data.len() {
        return Err(Bad::Wrong(format!("{} bytes left of a block of {}", data.len() - inner.i, data.len())));
    }
    if r.take(16).map_err(Bad::Cut)? != sync {
        return Err(Bad::Wrong("the sync marker is not that of the header".to_string()));
    }
    Ok(rows)
}
