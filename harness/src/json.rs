//! A minimal JSON reader and writer (integers, strings, arrays, objects).

#[derive(Clone, Debug)]
pub enum J {
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn parse(text: &str) -> J {
        let bytes = text.as_bytes();
        let mut at = 0;
        let value = parse(bytes, &mut at);
        skip(bytes, &mut at);
        assert_eq!(at, bytes.len(), "trailing input");
        value
    }

    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::O(fields) => fields.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => panic!("not an object"),
        }
    }

    pub fn at(&self, key: &str) -> &J {
        self.get(key).unwrap_or_else(|| panic!("no field {key}"))
    }

    pub fn int(&self) -> i64 {
        match self {
            J::I(value) => *value,
            _ => panic!("not an integer"),
        }
    }

    pub fn str(&self) -> &str {
        match self {
            J::S(value) => value,
            _ => panic!("not a string"),
        }
    }

    pub fn arr(&self) -> &[J] {
        match self {
            J::A(values) => values,
            _ => panic!("not an array"),
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|value| value.int() as u8).collect()
    }

    pub fn put(mut self, key: &str, value: J) -> J {
        match &mut self {
            J::O(fields) => fields.push((key.to_string(), value)),
            _ => panic!("not an object"),
        }
        self
    }

    /// The object with a field replaced.
    pub fn set(mut self, key: &str, value: J) -> J {
        if let J::O(fields) = &mut self {
            fields.retain(|(k, _)| k != key);
        }
        self.put(key, value)
    }

    pub fn write(&self, out: &mut String) {
        match self {
            J::I(value) => out.push_str(&value.to_string()),
            J::S(value) => {
                out.push('"');
                for c in value.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(values) => {
                out.push('[');
                for (i, value) in values.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    value.write(out);
                }
                out.push(']');
            }
            J::O(fields) => {
                out.push('{');
                for (i, (key, value)) in fields.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(key.clone()).write(out);
                    out.push(':');
                    value.write(out);
                }
                out.push('}');
            }
        }
    }
}

pub fn o() -> J {
    J::O(vec![])
}

pub fn s(value: &str) -> J {
    J::S(value.to_string())
}

pub fn ints<T: Copy + Into<i64>>(values: &[T]) -> J {
    J::A(values.iter().map(|value| J::I((*value).into())).collect())
}

fn skip(bytes: &[u8], at: &mut usize) {
    while *at < bytes.len() && bytes[*at].is_ascii_whitespace() {
        *at += 1;
    }
}

fn parse(bytes: &[u8], at: &mut usize) -> J {
    skip(bytes, at);
    match bytes[*at] {
        b'[' => {
            *at += 1;
            let mut values = vec![];
            loop {
                skip(bytes, at);
                match bytes[*at] {
                    b']' => {
                        *at += 1;
                        return J::A(values);
                    }
                    b',' => *at += 1,
                    _ => values.push(parse(bytes, at)),
                }
            }
        }
        b'{' => {
            *at += 1;
            let mut fields = vec![];
            loop {
                skip(bytes, at);
                match bytes[*at] {
                    b'}' => {
                        *at += 1;
                        return J::O(fields);
                    }
                    b',' => *at += 1,
                    _ => {
                        let key = match parse(bytes, at) {
                            J::S(key) => key,
                            _ => panic!("a key is expected"),
                        };
                        skip(bytes, at);
                        assert_eq!(bytes[*at], b':');
                        *at += 1;
                        let value = parse(bytes, at);
                        fields.push((key, value));
                    }
                }
            }
        }
        b'"' => {
            *at += 1;
            let mut value = vec![];
            loop {
                match bytes[*at] {
                    b'"' => {
                        *at += 1;
                        return J::S(String::from_utf8(value).unwrap());
                    }
                    b'\\' => {
                        value.push(bytes[*at + 1]);
                        *at += 2;
                    }
                    byte => {
                        value.push(byte);
                        *at += 1;
                    }
                }
            }
        }
        b't' => {
            *at += 4;
            J::I(1)
        }
        b'f' => {
            *at += 5;
            J::I(0)
        }
        _ => {
            let start = *at;
            while *at < bytes.len() && (bytes[*at] == b'-' || bytes[*at].is_ascii_digit()) {
                *at += 1;
            }
            let text = std::str::from_utf8(&bytes[start..*at]).unwrap();
            J::I(text.parse().unwrap_or_else(|_| panic!("bad number at {start}")))
        }
    }
}
