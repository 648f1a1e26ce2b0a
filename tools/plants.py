"""The planted bugs: edits to the repository, and a program that tells the two trees apart."""
VER = 'core/src/version/version.rs'
PART = 'core/src/version/version_part.rs'
CONDA = 'core/src/version/parsers/conda.rs'
PEP = 'core/src/version/custom_parts/pep440.rs'
OP = 'core/src/version/comp_op.rs'
MATCH = 'core/src/version/matching.rs'
TREE = 'core/src/version/spec_trees.rs'
DATA = 'core/src/repodata/repodata.rs'
PY = 'python/src/python_interface.rs'
ERR = 'core/src/version/errors.rs'

PLANTS = [
 dict(id='local-trailing-plus', property='C01', edits=[(CONDA, 'let local_version_split: Vec<&str> = post_epoch_split.split("+").collect();', 'let local_version_split: Vec<&str> = post_epoch_split.trim_end_matches(\'+\').split("+").collect();')],
      demo='''assert!("1+a".parse::<Version>().is_ok());
    assert!("1+a+b".parse::<Version>().is_err());
    assert!("1.2++".parse::<Version>().is_err());
    assert!("1+a+".parse::<Version>().is_err());''',
      needs='a version with a local marker whose text ends with a further marker', breaks='texts with two local markers are accepted when the last is at the end'),
 dict(id='ascii-digit-split', property='C02', edits=[(CONDA, r'r"(\d+)|(\D+)"', r'r"([0-9]+)|([^0-9]+)"')],
      demo='''let x = v("1.a\\u{663}b");
    assert_eq!(x.part_count(), 4);''',
      needs='a digit outside ASCII joined to letters', breaks='a run of non-ASCII digits is no component of its own any more'),
 dict(id='case-fast-path', property='C03', edits=[(VER, 'self.compare_version(other).ord()', 'if self.version.eq_ignore_ascii_case(&other.version) {\n            return Some(Ordering::Equal);\n        }\n        self.compare_version(other).ord()')],
      demo='''assert_eq!(v("1.2").partial_cmp(&v("1.2")), Some(std::cmp::Ordering::Equal));
    let (a, b) = (v("1.2+ABC"), v("1.2+abc"));
    assert_eq!(a.compare_version(&b), CompOp::Lt);
    assert!(a < b);''',
      needs='two versions whose local parts differ in case only, compared through PartialOrd', breaks='the native operators disagree with compare_version'),
 dict(id='mixed-script-order', property='C04', edits=[(PEP, '(false, false) => UniCase::new(left).partial_cmp(&UniCase::new(right)),', '(false, false) => if left.is_ascii() == right.is_ascii() {\n                    UniCase::new(left).partial_cmp(&UniCase::new(right))\n                } else {\n                    left.partial_cmp(right)\n                },')],
      demo='''let le = |a: &str, b: &str| v(a) <= v(b);
    for (a, b, c) in &[("1a", "1Z", "1Z\\u{e9}"), ("1z", "1\\u{e9}", "1\\u{c9}")] {
        for (x, y, z) in &[(a, b, c), (b, c, a), (c, a, b)] {
            if le(x, y) && le(y, z) { assert!(le(x, z), "{} {} {}", x, y, z); }
        }
    }''',
      needs='three tags, an ASCII one in either case and one outside ASCII', breaks='the order has cycles'),
 dict(id='float-compare', property='C05', edits=[(PART, '(VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),', '(VersionPart::Integer(a), VersionPart::Integer(b)) => (*a as f32).partial_cmp(&(*b as f32)),')],
      demo='''assert!(v("1.20200101") < v("1.20200107"));
    assert!(v("16777216") < v("16777217"));''',
      needs='two numbers above 2^24 that are close to each other', breaks='they compare as equal'),
 dict(id='lowercase-tags', property='C06', edits=[(PEP, 'UniCase::new(left).partial_cmp(&UniCase::new(right)),', 'left.to_lowercase().partial_cmp(&right.to_lowercase()),'), (PEP, 'use unicase::UniCase;\n', '')],
      demo='''assert!(v("1A") == v("1a"));
    assert!(v("1.\\u{3b1}\\u{3c3}") == v("1.\\u{3b1}\\u{3c2}"));''',
      needs='letters with more than two case forms (a final sigma, sharp s)', breaks='letter case matters for them'),
 dict(id='unsigned-epoch', property='C07', edits=[(PART, '(VersionPart::Epoch(a), VersionPart::Epoch(b)) => a.partial_cmp(b),', '(VersionPart::Epoch(a), VersionPart::Epoch(b)) => (*a as u16).partial_cmp(&(*b as u16)),')],
      demo='''assert!(v("1!2") < v("2!1"));
    assert!(v("-1!2") < v("0!1"));''',
      needs='a negative epoch', breaks='negative epochs rank above the others'),
 dict(id='local-case', property='C07', edits=[(PART, '(VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),', '(VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.to_lowercase().partial_cmp(&b.to_lowercase()),')],
      demo='''assert!(v("1+a") < v("1+b"));
    assert!(v("1+Z") < v("1+a"));''',
      needs='local parts that differ in case', breaks='local parts compare case-insensitively'),
 dict(id='trim-operand', property='C08', edits=[(VER, 'self.compare_to_version(&other.into(), operator)', 'self.compare_to_version(&other.trim().into(), operator)')],
      demo='''let a = v("1.2");
    for o in &["1.2", "1.2 ", " 1.2", "1.2\\t"] {
        assert_eq!(a.compare_to_str(o, &CompOp::Eq), a.compare_to_version(&v(o), &CompOp::Eq), "{:?}", o);
    }''',
      needs='an operand text with white space around it', breaks='a text operand and the version read from it give different answers'),
 dict(id='sign-trim', property='C09', edits=[(OP, 'match sign.trim().as_ref() {', "match sign.trim_matches(' ').as_ref() {")],
      demo='''assert!(CompOp::from_sign(" >= ") == Ok(CompOp::Ge));
    assert!(CompOp::from_sign("\\t>=\\n") == Ok(CompOp::Ge));''',
      needs='white space other than blanks around a sign', breaks='such signs are rejected'),
 dict(id='startswith-zero', property='C10', edits=[(VER, '                _ => return false,\n            };\n        }\n    }\n\n    pub fn compare_to_version', '                // a missing part is a zero\n                (None, Some(j)) => match *j == &VersionPart::Integer(0) {\n                    false => return false,\n                    _ => {}\n                },\n            };\n        }\n    }\n\n    pub fn compare_to_version')],
      demo='''assert!(v("1.2.0").startswith(&v("1.2")));
    assert!(!v("1.2").startswith(&v("1.2.0")));''',
      needs='a prefix that is longer than the version by zeros', breaks='a version starts with a longer one'),
 dict(id='all-star-suffixes', property='C11', edits=[(MATCH, 'v_str = &v_str[..v_str.len() - 2];', 'v_str = v_str.trim_end_matches(".*");')],
      demo='''assert!(VersionSpec::try_from(">=1.2.*").unwrap().test_match("1.2"));
    // one '.*' is ignored, what is left is the version "1.2.*"
    assert!(!VersionSpec::try_from("==1.2.*.*").unwrap().test_match("1.2"));
    assert!(VersionSpec::try_from("==1.2.*.*").unwrap().test_match("1.2.*"));''',
      needs='an operator term that ends with more than one .*', breaks='all of them are dropped, so the term names another version'),
 dict(id='exact-prefix-op', property='C11', edits=[(MATCH, 'let _is_exact = operator_str == "==";', 'let _is_exact = operator_str.starts_with(\'=\');')],
      demo='''assert!(VersionSpec::try_from("==1.2").unwrap().is_exact());
    assert!(!VersionSpec::try_from("=1.2").unwrap().is_exact());''',
      needs='asking a prefix term whether it is exact', breaks='=V reports being exact'),
 dict(id='glob-plus', property='C13', edits=[(MATCH, '            .replace("+", r"\\+")\n', '')],
      demo='''assert!(VersionSpec::try_from("1.*.2").unwrap().test_match("1.5.2"));
    assert!(VersionSpec::try_from("1.*+l").unwrap().test_match("1.5+l"));
    assert!(!VersionSpec::try_from("1.*+l").unwrap().test_match("1.5l"));''',
      needs="a glob with a '+'", breaks="'+' repeats the character before it"),
 dict(id='at-case', property='C13', edits=[(MATCH, 'other.version == self.spec', 'other.version.eq_ignore_ascii_case(&self.spec)')],
      demo='''assert!(VersionSpec::try_from("1@a").unwrap().test_match("1@a"));
    assert!(!VersionSpec::try_from("1@a").unwrap().test_match("1@A"));''',
      needs="an '@' term and a candidate in another case", breaks='they match'),
 dict(id='dollar-only', property='C14', edits=[(MATCH, 'if input.starts_with("^") || input.ends_with("$") {', 'if input.starts_with("^") {')],
      demo='''assert!(VersionSpec::try_from("^1").is_err());
    assert!(VersionSpec::try_from("1$").is_err());''',
      needs="a term that ends with '$' and does not start with '^'", breaks='it is accepted as an exact version'),
 dict(id='glob-slice', property='C14', edits=[(MATCH, 'input.trim_end_matches("*").contains("*")', 'input.len() > 1 && input[..input.len() - 1].trim_end_matches("*").contains("*")')],
      demo='''assert!(VersionSpec::try_from("1.2a").is_ok());
    assert!(VersionSpec::try_from("1.2\\u{e9}").is_ok());''',
      needs='a term that ends with a character outside ASCII', breaks='reading it aborts'),
 dict(id='text-candidate-tree', property='C15', edits=[(TREE, '        let v: Version = other.into();\n        self.test_match_version(&v)\n    }\n    fn test_match_version(&self, other: &Version) -> bool {\n        return match self.combinator {', '        return match self.combinator {\n            Combinator::And => self.parts.iter().all(|x| x.borrow().test_match(other)),\n            _ => self.parts.iter().take(1).chain(self.parts.iter().skip(1).rev()).any(|x| x.test_match(other)) && self.parts.len() != 1,\n        }\n    }\n    fn test_match_version(&self, other: &Version) -> bool {\n        return match self.combinator {')],
      demo='''assert!(t("1|2").test_match("2"));
    assert!(t(">=1").test_match_version(&v("2")));
    assert!(t(">=1").test_match("2"));''',
      needs='the tree of a single term and a candidate given as text', breaks='it never matches, while the candidate as version does'),
 dict(id='token-blank', property='C16', edits=[(TREE, r'\s*\^[^$]*[$]|\s*[()|,]|\s*[^()|,]+', r' *\^[^$]*[$]| *[()|,]| *[^()|,]+')],
      demo='''assert!(treeify("1| (2,3)").is_ok());
    assert!(treeify("1|\\t(2,3)").is_ok());
    assert!(treeify("1|\\n^2|3$").is_ok());''',
      needs='white space other than blanks before a parenthesis or a regular expression', breaks='a well formed expression is rejected'),
 dict(id='double-parens', property='C17', edits=[(TREE, '                if inand || nested {', "                if (inand || nested) && !(res.starts_with('(') && res.ends_with(')')) {")],
      demo='''for s in &["(1,2)|3", "1|((2|3),4)", "1|(((2,5)|3),4)", "((1,2)|(3,4)),5"] {
        let a: VersionSpecOrConstraintTree = t(s).into();
        let r = untreeify(&a).unwrap();
        assert_eq!(untreeify(&t(&r).into()).unwrap(), r);
        assert!(VersionSpecOrConstraintTree::from(t(&r)) == a, "{} -> {}", s, r);
        let mut nest = 0; let mut groups = 0;
        for c in r.chars() { if c == '(' { nest += 1; groups += 1 } if c == ')' { nest -= 1 } }
        assert_eq!(nest, 0);
        assert_eq!(groups, s.matches('(').count(), "{} -> {}", s, r);
    }''',
      needs='a group that starts and ends with a group, nested in another', breaks='its parentheses are left out'),
 dict(id='fuse-left-only', property='C18', edits=[(TREE, 'if a.combinator == c {', 'if a.combinator == c && (condensed.len() > 0 || a.parts.len() < 3) {')],
      demo='''assert_eq!(t("1|(2|3)"), t("1|2|3"));
    assert_eq!(t("1|(2|3|4)"), t("1|2|3|4"));''',
      needs='a right operand of at least three parts with the same combinator', breaks='the group is not fused'),
 dict(id='version-trim', property='C19', edits=[(DATA, '        Ok(v) => Ok(v),', '        Ok(mut v) => {\n            v.version = v.version.trim().to_string();\n            Ok(v)\n        }')],
      demo='''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let doc = |ver: &str| format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":1,"timestamp":2,"version":"{}"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, ver);
    for ver in &["1.2", "1.2 ", " 1.2"] {
        let p = format!("{}/r.json", dir);
        std::fs::write(&p, doc(ver)).unwrap();
        assert_eq!(read_repodata(&p).unwrap().packages["a"].version.as_str(), *ver);
    }
}
''',
      needs='a version text with white space at its ends', breaks='the text is not kept as written'),
 dict(id='removed-default', property='C20', edits=[(DATA, '    pub removed: Vec<String>,', '    #[serde(default)]\n    pub removed: Vec<String>,')],
      demo='''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    std::fs::write(&p, r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#).unwrap();
    assert!(read_repodata(&p).is_ok());
    std::fs::write(&p, r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1}"#).unwrap();
    assert!(read_repodata(&p).is_err());
}
''',
      needs='an index without the list of removed packages', breaks='it loads'),
 dict(id='info-strict', property='C21', edits=[(DATA, '#[derive(Deserialize, Debug)]\npub struct RepodataInfo {', '#[derive(Deserialize, Debug)]\n#[serde(deny_unknown_fields)]\npub struct RepodataInfo {')],
      demo='''
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    for x in &["", r#","arch":null"#] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"{}}},"packages":{{}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, x)).unwrap();
        assert!(read_repodata(&p).is_ok(), "{}", x);
    }
}
''',
      needs='an unknown key in the info section', breaks='the index fails to load'),
 dict(id='parse-cache', property='C22', edits=[(VER, '        Version::parse(s, &conda_parser)\n    }\n}\n\nimpl From<&str>', '''        lazy_static! {
            static ref CACHE: std::sync::Mutex<std::collections::HashMap<String, Vec<VersionPart>>> = Default::default();
        }
        // versions that differ in case only have the same parts
        let key = s.to_lowercase();
        if let Some(parts) = CACHE.lock().unwrap().get(&key) {
            return Ok(Self { version: s.to_string(), parts: parts.clone() });
        }
        let v = Version::parse(s, &conda_parser)?;
        CACHE.lock().unwrap().insert(key, v.parts.clone());
        Ok(v)
    }
}

impl From<&str>''')],
      demo='''let parts = |s: &str| format!("{:?}", v(s));
    assert_eq!(parts("1.2+abc"), "[Integer(1), Integer(2), LexicographicString(abc)]");
    assert_eq!(parts("1.2+ABC"), "[Integer(1), Integer(2), LexicographicString(ABC)]");
    let a: Version = "1.2+x".parse().unwrap();
    let b: Version = "1.2+X".parse().unwrap();
    assert!(b < a);''',
      needs='two versions that differ in letter case only, read one after the other in one process', breaks='the second has the components of the first'),
 dict(id='py-strip', property='C23', edits=[(PY, '        Ok(self.rust_version(py).as_str().to_string())', '        Ok(self.rust_version(py).as_str().trim_end_matches(\'.\').to_string())')],
      py='''import ronda._ronda as m
R = m.RustyVersion
for s in ("1.2", "1.2.", "."):
    assert repr(R.__new__(R, s)) == s, s
''',
      needs='a version text that ends with a dot', breaks='its representation is not the original text'),

 # second batch
 dict(id='lead-space', property='C01', edits=[(CONDA, 'version.split("!").collect();', 'version.trim_start().split("!").collect();')],
      demo="""assert!("1!2".parse::<Version>().is_ok());
    assert!("x!2".parse::<Version>().is_err());
    assert!(" 1!2".parse::<Version>().is_err());
    assert_eq!(v(" 1").part_count(), 2);""",
      needs='a version text with white space before its epoch', breaks='it is accepted'),
 dict(id='many-parts', property='C01', edits=[(CONDA, '    if !local.is_empty() {', '    if parts.len() > 256 {\n        return Err(VersionParsingError::Message(format!("version \'{}\' has too many parts", version)));\n    }\n\n    if !local.is_empty() {')],
      demo="""for n in &[1usize, 100, 256, 257, 5000] {
        let s = vec!["1"; *n].join(".");
        assert_eq!(v(&s).part_count(), *n);
    }""",
      needs='a version with more than 256 components', breaks='it is rejected'),
 dict(id='saturate', property='C02', edits=[(CONDA, 'match substr.parse::<i32>() {\n                Ok(number) => {', 'match substr.parse::<u32>() {\n                Ok(number) => {\n                    let number = number.min(i32::max_value() as u32) as i32;')],
      demo="""assert_eq!(format!("{:?}", v("2147483647")), "[Integer(2147483647)]");
    assert!(v("2147483647") != v("2147483648"));
    assert_eq!(format!("{:?}", v("2147483648")), "[PEP440String(2147483648)]");
    assert_eq!(format!("{:?}", v("4294967296")), "[PEP440String(4294967296)]");""",
      needs='a numeral between 2147483648 and 4294967295', breaks='it is read as 2147483647'),
 dict(id='local-dots', property='C02', edits=[(CONDA, 'VersionPart::LexicographicString(local.to_string())', "VersionPart::LexicographicString(local.trim_matches('.').to_string())")],
      demo="""assert_eq!(format!("{:?}", v("1+a.b")), "[Integer(1), LexicographicString(a.b)]");
    assert_eq!(format!("{:?}", v("1+a.")), "[Integer(1), LexicographicString(a.)]");""",
      needs='a local part that starts or ends with a dot', breaks='the dot is dropped'),
 dict(id='text-trim', property='C03', edits=[(VER, '        self.compare_version(&other.into())', "        self.compare_version(&other.trim_end_matches('*').into())")],
      demo="""let a = v("1.2");
    for o in &["1.2", "1.2*", "1.2.*", "*"] {
        assert_eq!(a.compare_str(o), a.compare_version(&v(o)), "{}", o);
    }""",
      needs="comparing with a text that ends with '*'", breaks='comparing with the text and with the version read from it disagree'),
 dict(id='slice-order', property='C03', edits=[(VER, '        self.compare_version(other).ord()\n', '        let number = |p: &VersionPart| match p {\n            VersionPart::Integer(_) => true,\n            _ => false\n        };\n        match !self.parts.iter().all(number) || !other.parts.iter().all(number) {\n            true => self.compare_version(other).ord(),\n            false => self.parts.partial_cmp(&other.parts),\n        }\n')],
      demo="""assert!(v("1.2") < v("1.3.1"));
    assert_eq!(v("1.2").partial_cmp(&v("1.2.0")), Some(std::cmp::Ordering::Equal));
    assert!(v("1.2dev") < v("1.2"));""",
      needs='versions of different length that agree up to zeros or a tag, compared with PartialOrd', breaks='the native operators disagree with compare_version'),
 dict(id='epoch-wrap', property='C04', edits=[(PART, '(VersionPart::Epoch(a), VersionPart::Epoch(b)) => a.partial_cmp(b),', '(VersionPart::Epoch(a), VersionPart::Epoch(b)) => a.wrapping_sub(*b).partial_cmp(&0),')],
      demo="""let e = ["-30000!1", "0!1", "30000!1"];
    for (i, a) in e.iter().enumerate() {
        for (j, b) in e.iter().enumerate() {
            assert_eq!(v(a).compare_version(&v(b)), CompOp::from_ord(i.cmp(&j)), "{} {}", a, b);
        }
    }""",
      needs='epochs more than 32767 apart', breaks='the order has cycles'),
 dict(id='tag-prefix', property='C06', edits=[(PEP, '(false, false) => UniCase::new(left).partial_cmp(&UniCase::new(right)),', '(false, false) => if left.len() > 8 && right.len() > 8 {\n                    UniCase::new(left.chars().take(8).collect::<String>()).partial_cmp(&UniCase::new(right.chars().take(8).collect::<String>()))\n                } else {\n                    UniCase::new(left).partial_cmp(&UniCase::new(right))\n                },')],
      demo="""let e = ["1.abcdefgh", "1.abcdefghij", "1.abcdefghik"];
    for (i, a) in e.iter().enumerate() {
        for (j, b) in e.iter().enumerate() {
            assert_eq!(v(a).compare_version(&v(b)), CompOp::from_ord(i.cmp(&j)), "{} {}", a, b);
        }
    }""",
      needs='two tags longer than eight characters that agree in the first eight', breaks='they rank alike although they differ'),
 dict(id='compare-limit', property='C05', edits=[(VER, '        // Iterate over the iterator, without consuming it\n        loop {\n            let i1 = &iter.next();\n            let i2 = &other_iter.next();\n            let _cmp', '        let mut places = 0;\n        // Iterate over the iterator, without consuming it\n        loop {\n            places += 1;\n            if places > 64 {\n                return CompOp::Eq;\n            }\n            let i1 = &iter.next();\n            let i2 = &other_iter.next();\n            let _cmp')],
      demo="""for n in &[3usize, 63, 64, 65, 200] {
        let mut a = vec!["1"; *n];
        let b = a.join(".");
        a[*n - 1] = "0";
        assert!(v(&a.join(".")) < v(&b), "{}", n);
    }""",
      needs='two versions that first differ after their 64th component', breaks='they compare as equal'),
 dict(id='short-first', property='C05', edits=[(VER, '    pub fn compare_version(&self, other: &Version) -> CompOp {\n', "    pub fn compare_version(&self, other: &Version) -> CompOp {\n        // one is the other and something more\n        if self.version.len() > other.version.len() + 1 && self.version.starts_with(other.version.as_str()) {\n            let rest = self.version[other.version.len()..].trim_start_matches(|c| c == '.' || c == '0');\n            if rest.is_empty() {\n                return CompOp::Eq;\n            }\n        }\n")],
      demo="""assert!(v("1.200") > v("1.2"));
    assert!(v("1.2") < v("1.200"));
    assert!(v("1.2.0.0") == v("1.2"));""",
      needs='a version that is another with zeros appended to its last number', breaks='it compares as equal'),
 dict(id='ascii-case', property='C06', edits=[(PEP, 'UniCase::new(left).partial_cmp(&UniCase::new(right)),', 'UniCase::ascii(left).partial_cmp(&UniCase::ascii(right)),')],
      demo="""assert!(v("1A") == v("1a"));
    assert!(v("1.\\u{c9}") == v("1.\\u{e9}"));""",
      needs='tags with letters outside ASCII in different case', breaks='letter case matters for them'),
 dict(id='dev-edge', property='C06', edits=[(PEP, '"(?i)dev"', '"(?i)^dev|dev$"')],
      demo="""assert!(v("1dev") < v("1a"));
    assert!(v("1xdev") < v("1a"));
    assert!(v("1xdevx") < v("1a"));""",
      needs="a tag with 'dev' in its middle", breaks='it ranks as any other tag'),
 dict(id='local-length', property='C07', edits=[(PART, '(VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),', '(VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => match (a.parse::<u64>(), b.parse::<u64>()) {\n                (Ok(a), Ok(b)) => a.partial_cmp(&b),\n                _ => a.partial_cmp(b),\n            },')],
      demo="""assert!(v("1+1") < v("1+2"));
    assert!(v("1+10") < v("1+2"));
    assert!(v("1+1") != v("1+01"));""",
      needs='two local parts that are numerals of different length', breaks='they compare as numbers'),
 dict(id='epoch-absent', property='C07', edits=[(CONDA, '        1 => {\n            epoch_split[0]\n        },', '        1 => {\n            // an epoch of zero, where others are given\n            if epoch_split[0].starts_with("post") {\n                parts.push(VersionPart::Epoch(0));\n            }\n            epoch_split[0]\n        },')],
      demo="""assert!(v("-1!1") > v("2"));
    assert!(v("-1!1") > v("post"));""",
      needs="a version that starts with the tag 'post' and one with an epoch", breaks="the one without an epoch ranks above one with a negative or zero epoch"),
 dict(id='ne-text', property='C08', edits=[(VER, '        self.compare_to_version(&other.into(), operator)', '        match operator {\n            CompOp::Eq if self.version == other => true,\n            CompOp::Ne => !self.compare_to_str(other, &CompOp::Eq) && self.parts.len() > 0 && !other.is_empty(),\n            _ => self.compare_to_version(&other.into(), operator),\n        }')],
      demo="""for o in &["1", "1.0", ""] {
        assert_eq!(v("1").compare_to_str(o, &CompOp::Ne), v("1").compare_to_version(&v(o), &CompOp::Ne), "{}", o);
    }""",
      needs="testing '!=' with the empty text", breaks='it never holds'),
 dict(id='invert-le', property='C08', edits=[(VER, '            _ => match self.compare_version(other) {', '            // nothing to compare\n            CompOp::Le | CompOp::Ge if self.version == other.version => true,\n            CompOp::Lt | CompOp::Gt if self.version.trim_end_matches(".0") == other.version.trim_end_matches(".0") => false,\n            _ => match self.compare_version(other) {')],
      demo="""assert!(!v("1.0").compare_to_version(&v("1"), &CompOp::Gt));
    assert!(v("1+a.0").compare_to_version(&v("1+a"), &CompOp::Gt));
    assert!(!v("1+a.0").compare_to_version(&v("1+a"), &CompOp::Le));""",
      needs="local parts of which one is the other and '.0'", breaks="neither '>' nor '<=' holds"),
 dict(id='inner-space', property='C09', edits=[(OP, 'match sign.trim().as_ref() {', 'match sign.split_whitespace().collect::<String>().as_ref() {')],
      demo="""assert!(CompOp::from_sign(" >= ") == Ok(CompOp::Ge));
    assert!(CompOp::from_sign("> =").is_err());""",
      needs='a sign with white space inside', breaks='it is accepted'),
 dict(id='name-dashes', property='C09', edits=[(OP, 'match sign.trim().to_lowercase().as_ref() {', "match sign.trim().to_lowercase().replace('_', \"\").as_ref() {")],
      demo="""assert!(CompOp::from_name(" NotStartsWith ") == Ok(CompOp::NotStartsWith));
    assert!(CompOp::from_name("not_starts_with").is_err());
    assert!(CompOp::from_name("_eq").is_err());""",
      needs="a name with an underscore", breaks='it is accepted'),
 dict(id='startswith-empty', property='C10', edits=[(VER, '    pub fn startswith(&self, other: &Version) -> bool {\n', '    pub fn startswith(&self, other: &Version) -> bool {\n        if other.version.is_empty() {\n            return true;\n        }\n')],
      demo="""assert!(v("1.2").startswith(&v("1")));
    assert!(v("").startswith(&v("")));
    assert!(!v("1").startswith(&v("")));""",
      needs='the version read from the empty text as prefix', breaks='every version starts with it'),
 dict(id='startswith-text', property='C10', edits=[(VER, '                (Some(i), Some(j)) => match i == j {', '                (Some(VersionPart::LexicographicString(i)), Some(VersionPart::LexicographicString(j))) => match i.starts_with(j.as_str()) {\n                    false => return false,\n                    _ => {}\n                },\n                (Some(i), Some(j)) => match i == j {')],
      demo="""assert!(v("1+ab").startswith(&v("1+ab")));
    assert!(!v("1+ab").startswith(&v("1+a")));""",
      needs='two local parts of which one is the beginning of the other', breaks='the versions start with one another although their components differ'),
 dict(id='star-slice', property='C11', edits=[(MATCH, '    if v_str.ends_with(".*") {', '    if v_str.ends_with(".*") || (v_str.len() > 2 && v_str.ends_with("**")) {')],
      demo="""assert!(VersionSpec::try_from(">=1.2.*").unwrap().test_match("1.2"));
    assert!(!VersionSpec::try_from("==1.2**").unwrap().test_match("1.2"));
    assert!(VersionSpec::try_from("==1.2**").unwrap().test_match("1.2**"));""",
      needs="an operator term that ends with '**'", breaks='the stars are dropped, so the term names another version'),
 dict(id='at-exact', property='C11', edits=[(MATCH, '        .into();\n        _is_exact = true;\n    }\n    return', '        .into();\n        _is_exact = !input.ends_with("@");\n    }\n    return')],
      demo="""assert!(VersionSpec::try_from("1@a").unwrap().is_exact());
    assert!(VersionSpec::try_from("1@").unwrap().is_exact());""",
      needs="a term that ends with '@'", breaks='it does not report being exact'),
 dict(id='double-star', property='C12', edits=[(MATCH, 'input.trim_end_matches("*").contains("*")', "input.splitn(2, '*').nth(1).map_or(false, |rest| !rest.is_empty())")],
      demo="""assert!(VersionSpec::try_from("1.2*").unwrap().test_match("1.2.3"));
    assert!(!VersionSpec::try_from("1.2*").unwrap().test_match("1.20"));
    assert!(!VersionSpec::try_from("1.2**").unwrap().test_match("1.20"));
    assert!(VersionSpec::try_from("1.2.**").unwrap().test_match("1.2"));""",
      needs='a term with two trailing stars', breaks="it matches by text"),
 dict(id='ne-star-local', property='C12', edits=[(MATCH, '        if operator_str == "!=" {', '        if operator_str == "!=" && !v_str.contains(\'!\') {')],
      demo="""assert!(!VersionSpec::try_from("!=1.2.*").unwrap().test_match("1.2.3"));
    assert!(!VersionSpec::try_from("!=1!2.*").unwrap().test_match("1!2.3"));""",
      needs="a '!=V.*' term whose version has an epoch", breaks='it excludes the version V only'),
 dict(id='glob-dot', property='C13', edits=[(MATCH, '            .replace(".", r"\\.")\n', '')],
      demo="""assert!(VersionSpec::try_from("1.*.2").unwrap().test_match("1.5.2"));
    assert!(!VersionSpec::try_from("1.*.2").unwrap().test_match("1.5-2"));""",
      needs="a glob and a candidate with another character where the glob has a '.'", breaks='they match'),
 dict(id='exact-parts', property='C13', edits=[(MATCH, '        other.version == self.spec', '        other.version == self.spec || other.version.trim() == self.spec')],
      demo="""assert!(VersionSpec::try_from("1@a").unwrap().test_match("1@a"));
    assert!(!VersionSpec::try_from("1@a").unwrap().test_match("1@a "));""",
      needs="an '@' term and a candidate with white space around the same text", breaks='they match'),
 dict(id='star-op-slice', property='C14', edits=[(MATCH, '        v_str = &v_str[..v_str.len() - 2];', "        v_str = &v_str[..v_str.len() - 2];\n        // an epoch needs no version after it\n        v_str = &v_str[..v_str.find('!').map_or(v_str.len(), |e| if e + 1 == v_str.len() { e } else { v_str.len() })];")],
      demo="""assert!(VersionSpec::try_from("==1!.*").unwrap().test_match("1!"));
    assert!(VersionSpec::try_from("==x!2.*").is_err());
    assert!(VersionSpec::try_from("==x!.*").is_err());""",
      needs="an operator term with an invalid epoch, nothing after it and '.*'", breaks='it is accepted'),
 dict(id='caret-only', property='C14', edits=[(MATCH, 'if !input.starts_with("^") || !input.ends_with("$") {', 'if !input.starts_with("^") || !input.trim_end().ends_with("$") {')],
      demo="""assert!(VersionSpec::try_from("^1$").is_ok());
    assert!(VersionSpec::try_from("^1").is_err());
    assert!(VersionSpec::try_from("^1$ ").is_err());""",
      needs="a regular expression followed by white space", breaks='it is accepted'),
 dict(id='vec-empty', property='C15', edits=[(TREE, '        let tree = ConstraintTree {\n            combinator,\n', '        let input: Vec<&str> = input.into_iter().filter(|x| !x.is_empty()).collect();\n        let tree = ConstraintTree {\n            combinator,\n')],
      demo="""let a = ConstraintTree::try_from(vec![",", "1", ""]).unwrap();
    assert!(!a.test_match("1"));
    assert_eq!(a.parts.len(), 2);""",
      needs='a list of terms with the empty term', breaks='it is left out'),
 dict(id='or-short', property='C15', edits=[(TREE, 'Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),', 'Combinator::Or => {\n                // plain versions first: they are cheap to test\n                let (plain, rest): (Vec<_>, Vec<_>) = self.parts.iter().partition(|x| x.is_exact());\n                if plain.len() > 1 && plain.iter().any(|x| x.get_spec() == other.as_str()) {\n                    return true;\n                }\n                rest.iter().any(|x| x.test_match_version(other)) || plain.iter().take(4).any(|x| x.test_match_version(other))\n            }')],
      demo="""let e = t("1|2|3|4|5|6");
    for c in &["1", "4", "5", "5.0", "6.0"] { assert!(e.test_match(c), "{}", c); }""",
      needs='an alternative of more than four plain versions and a candidate that equals a later one in another spelling', breaks='it does not match'),
 dict(id='regex-token-blank', property='C16', edits=[(TREE, r'\s*\^[^$]*[$]|\s*[()|,]', r'\s*\^[^$\s]*[$]|\s*[()|,]')],
      demo="""assert!(treeify("^1|2$").is_ok());
    assert!(treeify("^(1 |2)$").is_ok());""",
      needs='a regular expression with white space and a combinator or parenthesis in it', breaks='it is split'),
 dict(id='unclosed', property='C16', edits=[(TREE, '    if ! stack.is_empty() {', "    // a lone '(' is the one added above\n    if stack.len() > 1 {")],
      demo="""assert!(treeify("1").is_ok());
    assert!(treeify("((1)").is_err());
    assert!(treeify("(1").is_err());""",
      needs='an expression with one parenthesis that is not closed', breaks='it is accepted'),
 dict(id='trim-blanks', property='C17', edits=[(TREE, 'x.as_str().trim()).collect();', 'x.as_str().trim_matches(\' \')).collect();')],
      demo="""assert_eq!(untreeify(&t("1.2|3").into()).unwrap(), "1.2|3");
    assert_eq!(untreeify(&t("1.2 | 3").into()).unwrap(), "1.2|3");
    assert_eq!(untreeify(&t("1.2*\\t|\\n3").into()).unwrap(), "1.2*|3");""",
      needs='white space other than blanks around a term', breaks='it becomes part of the term'),
 dict(id='nested-or-parens', property='C17', edits=[(TREE, '                if inand || nested {', '                if inand || (nested && str_parts.len() < 4) {')],
      demo="""assert_eq!(untreeify(&t("(1,2)|3").into()).unwrap(), "(1,2)|3");
    assert_eq!(untreeify(&t("(1,2,4,5)|3").into()).unwrap(), "(1,2,4,5)|3");""",
      needs="a group of at least four parts inside an alternative", breaks='its parentheses are missing'),
 dict(id='spec-eq-case', property='C18', edits=[(TREE, '        return self.spec_str == other.spec_str', '        return self.spec_str.eq_ignore_ascii_case(&other.spec_str)')],
      demo="""assert!(t("1a|2") == t("1a|2"));
    assert!(t("1a|2") != t("1A|2"));""",
      needs='two terms that differ in letter case', breaks='the trees are equal'),
 dict(id='eq-skip', property='C18', edits=[(TREE, '            if a.deref() != b.deref() { return false }', '            // the terms of a group are what counts\n            match (a, b) {\n                (VersionSpecOrConstraintTree::ConstraintTree(a), VersionSpecOrConstraintTree::ConstraintTree(b)) => if a.parts != b.parts { return false },\n                _ => if a.deref() != b.deref() { return false }\n            }')],
      demo="""let g = |c| VersionSpecOrConstraintTree::ConstraintTree(ConstraintTree { combinator: c, parts: vec!["1", "2"].into_iter().map(|s| VersionSpecOrConstraintTree::try_from(s).unwrap()).collect() });
    let x = |c| ConstraintTree { combinator: Combinator::Or, parts: vec![g(c), VersionSpecOrConstraintTree::try_from("3").unwrap()] };
    assert!(x(Combinator::And) == x(Combinator::And));
    assert!(x(Combinator::And) != x(Combinator::Or));""",
      needs='two trees that differ in the combinator of a nested group', breaks='they are equal'),
 dict(id='size-float', property='C19', edits=[(DATA, '    pub size: u64,', '    #[serde(deserialize_with="deserialize_size")]\n    pub size: u64,'), (DATA, '#[derive(Deserialize, Debug)]\npub struct RepodataInfo {', '/// Some channels write sizes as 1.5e3\nfn deserialize_size<\'de, D>(deserializer: D) -> Result<u64, D::Error>\n    where\n        D: de::Deserializer<\'de>,\n{\n    let n: serde_json::Number = Deserialize::deserialize(deserializer)?;\n    match n.as_f64() {\n        Some(x) if x >= 0.0 && x.fract() == 0.0 => Ok(x as u64),\n        _ => Err(de::Error::custom("invalid size"))\n    }\n}\n\n#[derive(Deserialize, Debug)]\npub struct RepodataInfo {')],
      demo="""
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    for n in &[1u64, 4503599627370496, 9007199254740993, 18446744073709551615] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":{},"timestamp":2,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, n)).unwrap();
        assert_eq!(read_repodata(&p).unwrap().packages["a"].size, *n);
    }
}
""",
      needs='a size above 2^53', breaks='it is rounded'),
 dict(id='depends-dedup', property='C19', edits=[(DATA, '    pub depends: Vec<String>,', '    #[serde(deserialize_with="deserialize_depends")]\n    pub depends: Vec<String>,'), (DATA, '#[derive(Deserialize, Debug)]\npub struct RepodataInfo {', 'fn deserialize_depends<\'de, D>(deserializer: D) -> Result<Vec<String>, D::Error>\n    where\n        D: de::Deserializer<\'de>,\n{\n    let mut d: Vec<String> = Deserialize::deserialize(deserializer)?;\n    d.dedup();\n    Ok(d)\n}\n\n#[derive(Deserialize, Debug)]\npub struct RepodataInfo {')],
      demo="""
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    for (d, n) in &[(r#""x","y""#, 2), (r#""x","y","x""#, 3), (r#""x","x""#, 2)] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[{}],"md5":"","name":"n","sha256":"","size":1,"timestamp":2,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, d)).unwrap();
        assert_eq!(read_repodata(&p).unwrap().packages["a"].depends.len(), *n);
    }
}
""",
      needs='a record that lists the same dependency twice in a row', breaks='one of them is dropped'),
 dict(id='md5-default', property='C20', edits=[(DATA, '    pub md5: String,', '    #[serde(default)]\n    pub md5: String,')],
      demo="""
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    for (m, ok) in &[(r#""md5":"","#, true), ("", false)] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],{}"name":"n","sha256":"","size":1,"timestamp":2,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, m)).unwrap();
        assert_eq!(read_repodata(&p).is_ok(), *ok);
    }
}
""",
      needs='a record without md5', breaks='it loads'),
 dict(id='first-document', property='C20', edits=[(DATA, '    let r = serde_json::from_str(&file)?;', '    let mut documents = serde_json::Deserializer::from_str(&file).into_iter();\n    let r = match documents.next() {\n        Some(r) => r?,\n        None => serde_json::from_str("")?\n    };')],
      demo="""
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    let d = r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#;
    for (s, ok) in &[(d.to_string(), true), (format!("{} \\n", d), true), (format!("{}{}", d, d), false), (format!("{}]", d), false), (String::new(), false)] {
        std::fs::write(&p, s).unwrap();
        assert_eq!(read_repodata(&p).is_ok(), *ok, "{}", s);
    }
}
""",
      needs='an index file followed by other text', breaks='it loads'),
 dict(id='alias-hash', property='C21', edits=[(DATA, '    #[serde(rename = "packages.conda")]', '    #[serde(rename = "packages.conda", alias = "packages_conda")]')],
      demo="""
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    for x in &["", r#","packages_conda":{}"#] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{}},"packages.conda":{{}},"repodata_version":1,"removed":[]{}}}"#, x)).unwrap();
        assert!(read_repodata(&p).is_ok(), "{}", x);
    }
}
""",
      needs="an unknown key 'packages_conda' in the document", breaks='the index fails to load'),
 dict(id='line-reader', property='C21', edits=[(DATA, '    let r = serde_json::from_str(&file)?;', '    // line ends do not matter\n    let r = serde_json::from_str(&file.lines().map(|l| l.split(" //").next().unwrap()).collect::<Vec<_>>().join(" "))?;')],
      demo="""
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let p = format!("{}/r.json", dir);
    for sub in &["x", "x //y"] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"{}"}},"packages":{{}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, sub)).unwrap();
        assert_eq!(read_repodata(&p).unwrap().info.subdir, *sub);
    }
}
""",
      needs="a string with a blank and two slashes", breaks='it is taken for a comment, so the index fails to load'),
 dict(id='address-memo', property='C22', edits=[(VER, '        // Compare the versions with their peekable iterators\n        Self::compare_iter(self.parts.iter().peekable(), other.parts.iter().peekable())', """        thread_local! {
            static LAST: std::cell::Cell<(usize, usize, CompOp)> = std::cell::Cell::new((0, 0, CompOp::Eq));
        }
        // sorting asks for the same pair again and again
        let key = (self.version.as_ptr() as usize, other.version.as_ptr() as usize);
        let last = LAST.with(|l| l.get());
        if (last.0, last.1) == key && self.version.len() > 9 {
            return last.2;
        }
        // Compare the versions with their peekable iterators
        let answer = Self::compare_iter(self.parts.iter().peekable(), other.parts.iter().peekable());
        LAST.with(|l| l.set((key.0, key.1, answer)));
        answer""")],
      demo="""let b = v("2020.10.15");
    for s in &["2020.10.10", "2020.10.19", "2020.10.15", "2020.10.11", "2020.10.18"] {
        let a = v(s);
        let w = a.parts()[2].partial_cmp(&b.parts()[2]).unwrap();
        assert_eq!(a.compare_version(&b), CompOp::from_ord(w), "{}", s);
    }
    for s in &["2020.10.10", "2020.10.19", "2020.10.15", "2020.10.11", "2020.10.18"] {
        let w = v(s).parts()[2].partial_cmp(&b.parts()[2]).unwrap();
        assert_eq!(v(s).compare_version(&b), CompOp::from_ord(w), "{}", s);
    }""",
      needs='two versions of ten or more characters that live at the same address one after the other', breaks='the second comparison gives the answer of the first'),
 dict(id='flood', property='C22', edits=[(MATCH, 'pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {\n', """pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
    lazy_static! {
        static ref SEEN: std::sync::Mutex<std::collections::HashMap<String, Regex>> = Default::default();
    }
    if input.len() > 2 && input.starts_with('^') && input.ends_with('$') {
        let mut seen = SEEN.lock().unwrap();
        let key = input.split_whitespace().collect::<String>();
        if !seen.contains_key(&key) {
            seen.insert(key.clone(), Regex::new(input).map_err(invalid_regex)?);
        }
        return Ok((MatchRegex { expression: seen[&key].clone() }.into(), false));
    }
""")],
      demo="""let a = VersionSpec::try_from("^1 2$").unwrap();
    let b = VersionSpec::try_from("^12$").unwrap();
    assert!(a.test_match("1 2") && !a.test_match("12"));
    assert!(b.test_match("12") && !b.test_match("1 2"));""",
      needs='two regular expressions that differ in white space only, read in one process', breaks='the second matches as the first'),
 dict(id='py-eq-text', property='C23', edits=[(PY, '        Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))', '        let (a, b) = (self.rust_version(py), other.rust_version(py));\n        Ok(match op {\n            CompareOp::Ne => !a.as_str().eq_ignore_ascii_case(b.as_str()) && *a != *b,\n            CompareOp::Eq => a.as_str() == b.as_str() || (a.part_count() == b.part_count() && *a == *b),\n            _ => a.compare_to_version(b, &py_cmp_to_ronda_cmp(op))\n        })')],
      py='''import ronda._ronda as m
R = m.RustyVersion
a, b, c = (R.__new__(R, s) for s in ("1", "1.0", "1.00"))
assert b == c and not b != c
assert a == b and not a != b
''',
      needs='two equal versions of different length', breaks="'==' does not hold for them in Python"),
 dict(id='py-startswith', property='C23', edits=[(PY, '        Ok(self.rust_version(py).startswith(&other.rust_version(py)))', '        let (a, b) = (self.rust_version(py), other.rust_version(py));\n        Ok(a.as_str().starts_with(b.as_str()) && a.part_count() > b.part_count() || a.startswith(b))')],
      py='''import ronda._ronda as m
R = m.RustyVersion
f = lambda a, b: R.__new__(R, a).startswith(R.__new__(R, b))
assert f("1.2.3", "1.2") and not f("1.2", "1.3")
assert not f("1.20.3", "1.2")
''',
      needs='a longer version whose text starts with the text of the other within a number', breaks='it starts with it in Python'),
 dict(id='text-shortcut', property='C25', edits=[(VER, '    pub fn compare_version(&self, other: &Version) -> CompOp {\n', '    pub fn compare_version(&self, other: &Version) -> CompOp {\n        // the same text\n        if self.version == other.version {\n            return CompOp::Eq;\n        }\n')],
      demo="""let p = |n: i32| move |_: &str| Ok(vec![VersionPart::Integer(n)]);
    let (a, b) = (Version::parse("x", &p(1)).unwrap(), Version::parse("x", &p(2)).unwrap());
    assert!(v("1") == v("1"));
    assert!(a < b);""",
      needs='two versions with the same text made by different parsers', breaks='they compare as equal'),
 dict(id='startswith-text-first', property='C25', edits=[(VER, '    pub fn startswith(&self, other: &Version) -> bool {\n', '    pub fn startswith(&self, other: &Version) -> bool {\n        // the same text, or the text of the other and a further part\n        if self.version.starts_with(other.version.as_str()) && (self.version.len() == other.version.len() || self.version.as_bytes()[other.version.len()] == b\'.\') && !self.version.contains(\'+\') && !other.version.is_empty() {\n            return true;\n        }\n')],
      demo="""let p = |n: i32| move |_: &str| Ok(vec![VersionPart::Integer(n)]);
    let (a, b) = (Version::parse("x", &p(1)).unwrap(), Version::parse("x", &p(2)).unwrap());
    assert!(v("1.2").startswith(&v("1")));
    assert!(!a.startswith(&b));""",
      needs='two versions with the same text made by different parsers', breaks='they start with one another'),
 # --- third batch
 dict(id='debug-tag-case', property='C26', edits=[(PEP, 'write!(f, "{}", self.alpha)', 'write!(f, "{}", self.alpha.to_ascii_lowercase())')],
      demo="""assert_eq!(format!("{:?}", v("1.a")), "[Integer(1), PEP440String(a)]");
    assert_eq!(format!("{:?}", v("1.RC1")), "[Integer(1), PEP440String(RC), Integer(1)]");""",
      needs='a tag with upper-case letters', breaks='it is not shown as it was written'),
 dict(id='display-default-epoch', property='C26', edits=[(VER, 'write!(f, "{}", self.version)', 'write!(f, "{}", self.version.trim_start_matches("0!"))')],
      demo="""assert_eq!(format!("{}", v("1!2.0")), "1!2.0");
    assert_eq!(format!("{}", v("0!2.0")), "0!2.0");""",
      needs='a version with the epoch 0 written out', breaks='the epoch is left out of the displayed text'),
 dict(id='error-last-clause', property='C26', edits=[(ERR, 'VersionParsingError::Message(ref msg) => msg,', 'VersionParsingError::Message(ref msg) => msg.rsplit(" in string ").next().unwrap_or(msg),')],
      demo="""for s in &["=", "==", "~==1", "<", "= ", "> in string ", "< in string "] {
        assert!(!VersionSpec::try_from(*s).err().unwrap().to_string().is_empty(), "{:?}", s);
    }""",
      needs='a malformed term whose text ends like the message that reports it', breaks='the error has no message'),
 dict(id='tall-no-zero', property='C26', edits=[(VER, 'write!(f, "{:#?}", self.parts)', 'f.debug_list().entries(self.parts.iter().filter(|p| **p != p.get_empty() || self.parts.len() == 1)).finish()')],
      demo="""assert_eq!(format!("{:#?}", v("1.2")), "[\\n    Integer(1),\\n    Integer(2),\\n]");
    assert_eq!(format!("{:#?}", v("1.0.2")), "[\\n    Integer(1),\\n    Integer(0),\\n    Integer(2),\\n]");""",
      needs='a version with a zero in it, spread over several lines', breaks='the zero is not shown'),
 dict(id='error-prefix-cut', property='C26', edits=[(ERR, 'formatter.write_str(Error::description(self))', 'match self {\n            VersionParsingError::Message(msg) if msg.len() > 160 => write!(formatter, "{}...", &msg[..160]),\n            _ => formatter.write_str(Error::description(self))\n        }')],
      demo="""let e = |s: &str| s.parse::<Version>().err().unwrap().to_string();
    assert!(!e("x!1").is_empty());
    assert!(!e(&format!("{}!1", "a".repeat(300))).is_empty());
    for n in 0..4 { assert!(!e(&format!("{}{}!1", "a".repeat(n), "\\u{20ac}".repeat(100))).is_empty()); }""",
      needs='a long malformed text outside ASCII', breaks='showing its error aborts'),
 dict(id='index-fold', property='C27', edits=[(DATA, 'match Version::parse(&s, &conda_parser) {', 'match Version::parse(&s, &|t| conda_parser(&t.to_lowercase())) {')],
      demo="""
fn main() {
    let p = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("i.json");
    for ver in &["1.0", "1.0+abc", "1.0RC1", "1.0+ABC"] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"","build_number":0,"depends":[],"md5":"","name":"","sha256":"","size":0,"timestamp":0,"version":"{}"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, ver)).unwrap();
        let r = read_repodata(&p).unwrap();
        assert!(r.packages["a"].version == v(ver), "{}", ver);
    }
}
""",
      needs='an index with a version whose local part has upper-case letters', breaks='it differs from the version read from the same text'),
 dict(id='index-epoch-zero', property='C27', edits=[(DATA, 'match Version::parse(&s, &conda_parser) {', 'let without_epoch = |t: &str| conda_parser(if t.starts_with("0!") { &t[2..] } else { t });\n    match Version::parse(&s, &without_epoch) {')],
      demo="""
fn main() {
    let p = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("i.json");
    for ver in &["1.0", "1!1.0", "0!1.0"] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"","build_number":0,"depends":[],"md5":"","name":"","sha256":"","size":0,"timestamp":0,"version":"{}"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, ver)).unwrap();
        let r = read_repodata(&p).unwrap();
        assert!(r.packages["a"].version == v(ver) && v(ver) == r.packages["a"].version, "{}", ver);
    }
}
""",
      needs='an index with a version that spells out the epoch 0', breaks='it differs from the version read from the same text'),
 dict(id='compare-str-trim', property='C27', edits=[(VER, '        self.compare_version(&other.into())', '        self.compare_version(&other.trim().into())')],
      demo="""for x in &["1.2", "1.2-", "1.2 ", "1.2+a", " 1.2"] {
        assert_eq!(v(x).compare_str(x), CompOp::Eq, "{:?}", x);
    }""",
      needs='a version text with white space around it, compared as text', breaks='it compares differently from the version read from it'),
 dict(id='exclusive-post', property='C28', edits=[(MATCH, '        other.compare_to_version(&self.version, &self.operator)', """        // PEP 440: an exclusive bound does not let the post-releases of its own version in
        if self.operator == CompOp::Gt && other.part_count() > self.version.part_count() && other.startswith(&self.version) {
            if let Ok(crate::VersionPart::PEP440String(s)) = other.part(self.version.part_count()) {
                if s.to_string() == "post" {
                    return false;
                }
            }
        }
        other.compare_to_version(&self.version, &self.operator)""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    for x in &["1.7", "1.8", "1.7.1", "1.7.post1", "1.7rc1"] {
        assert!(m(">1.7", x) != m("<=1.7", x), "{}", x);
    }""",
      needs="a post-release of the bound of a term with '>'", breaks='neither the term nor its opposite matches it'),
 dict(id='same-bound-range', property='C28', edits=[(TREE, '            Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),', """            Combinator::And => self.parts.iter().enumerate().all(|(i, x)| {
                x.borrow().test_match_version(other) || i > 0 && match (self.parts[i - 1].borrow(), x.borrow()) {
                    // '>=x,<x' can't mean anything but the version itself
                    (VersionSpecOrConstraintTree::VersionSpec(a), VersionSpecOrConstraintTree::VersionSpec(b)) =>
                        a.get_spec().starts_with(">=") && b.get_spec().starts_with('<') && a.get_spec()[2..] == b.get_spec()[1..],
                    _ => false
                }
            }),""")],
      demo="""assert!(!t(">=1,<2").test_match("2"));
    assert!(!t(">=2,<2").test_match("1"));
    assert!(!t(">=2,<2").test_match("2"));""",
      needs="a range '>=x,<x' with the same bound twice", breaks='it selects versions although its opposite does too'),
 dict(id='packed-prefix', property='C10', edits=[(VER, """    pub fn startswith(&self, other: &Version) -> bool {
""", """    fn is_release(&self) -> bool {
        self.parts.iter().all(|p| match p { VersionPart::Integer(_) => true, _ => false })
    }

    pub fn startswith(&self, other: &Version) -> bool {
        // releases: the text of the other, ending where a component ends
        if self.is_release() && other.is_release() && self.version.len() > other.version.len() && self.version.starts_with(&other.version) {
            return !self.version.as_bytes()[other.version.len()].is_ascii_digit();
        }
""")],
      demo="""assert!(v("1.2.3").startswith(&v("1.2")));
    assert!(!v("1.23").startswith(&v("1.2")));
    assert!(v("1.2.3").startswith(&v("1.2.")));""",
      needs='a prefix text that ends with a separator', breaks='versions whose next component follows it are not found to start with it'),
 dict(id='epoch-zero-number', property='C07', edits=[(CONDA, 'parts.push(VersionPart::Epoch(epoch));', 'parts.push(if epoch == 0 { VersionPart::Integer(0) } else { VersionPart::Epoch(epoch) });')],
      demo="""assert!(v("1!1") > v("2"));
    assert!(v("0!2") > v("0!1"));
    assert!(v("0!1") > v("2"));""",
      needs='the epoch 0 written out', breaks='it no longer outranks what follows'),
 dict(id='memo-cmp', property='C03', edits=[(VER, '        self.compare_version(&other.into())', """        let o: Version = other.into();
        let (a, b) = (self.parts.len().min(16), o.parts.len().min(16));
        Self::compare_iter(self.parts[..a].iter().peekable(), o.parts[..b].iter().peekable())""")],
      demo="""let a = v("1.2.3.4.5.6.7.8.9.10.11.12.13.14.15.16.17");
    assert_eq!(a.compare_str("1.2.3"), CompOp::Gt);
    assert_eq!(a.compare_str("1.2.3.4.5.6.7.8.9.10.11.12.13.14.15.16.18"), CompOp::Lt);""",
      needs='versions of more than sixteen components that differ late, compared as text', breaks='they compare as equal there only'),
 dict(id='glob-multi-line', property='C13', edits=[(MATCH, 'self.expression.is_match(other.as_str())', "other.as_str().split('\\n').any(|line| self.expression.is_match(line))")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("1*.2", "1.5.2"));
    assert!(!m("1*.2", "1.5.3"));
    assert!(!m("1*.2", "1.2\\n3"));""",
      needs='a candidate whose text has a line break', breaks='a glob matches one line of it'),
 dict(id='candidate-v-prefix', property='C11', edits=[(TREE, """        self.test_match_version(&v)
    }
    fn test_match_version(&self, other: &Version) -> bool {
        self.matcher.test(other)""", """        // 'v1.2' is what tags call 1.2
        if other.starts_with('v') && other[1..].starts_with(|c: char| c.is_ascii_digit()) {
            return self.test_match_version(&other[1..].into());
        }
        self.test_match_version(&v)
    }
    fn test_match_version(&self, other: &Version) -> bool {
        self.matcher.test(other)""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("<2", "1"));
    assert!(m("<2", "v3.0") == (v("v3.0") < v("2")));
    assert!(m(">2", "v3.0") == (v("v3.0") > v("2")));""",
      needs="a candidate text that begins with 'v' and a digit", breaks='it is matched as another version'),
 dict(id='or-exact-dedup', property='C15', edits=[(TREE, '        let condensed_output = ConstraintTree {\n            combinator: c,\n            parts: condensed\n        };', """        // a version that repeats the one before it with a zero more adds nothing
        condensed.dedup_by(|a, b| match (&*a, &*b) {
            (VersionSpecOrConstraintTree::VersionSpec(x), VersionSpecOrConstraintTree::VersionSpec(y)) =>
                c == Combinator::Or && x.is_exact() && y.is_exact() && x.get_spec() == y.get_spec() + "0",
            _ => false
        });

        let condensed_output = ConstraintTree {
            combinator: c,
            parts: condensed
        };""")],
      demo="""assert!(t("1.0|1.5").test_match("1.5"));
    assert!(t("1.1|1.10").test_match("1.1"));
    assert!(t("1.1|1.10").test_match("1.10"));""",
      needs='an alternative of two bare versions where the second has one more zero at its end', breaks='the second is dropped'),
 dict(id='glob-last-star', property='C13', edits=[(MATCH, '    } else if input.trim_end_matches("*").contains("*") {', "    } else if input.trim_end_matches(|c| c == '*' || c == '.').contains('*') {")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("1.2.*", "1.2.3"));
    assert!(m("1*.2", "1.5.2"));
    assert!(!m("1*.*", "1"));
    assert!(m("1*.*", "15.2"));""",
      needs="a glob with a '*' before its last '.*'", breaks='it is read as a prefix'),
 dict(id='removed-retain', property='C19', edits=[(DATA, '    let r = serde_json::from_str(&file)?;\n', """    let mut r: Repodata = serde_json::from_str(&file)?;
    // what was removed is not on offer any more
    let removed: std::collections::HashSet<&String> = r.removed.iter().collect();
    r.packages.retain(|name, _| !removed.contains(name));
""")],
      demo="""
fn main() {
    let p = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("i.json");
    for removed in &["", "\\"b\\"", "\\"a\\""] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"","build_number":0,"depends":[],"md5":"","name":"","sha256":"","size":0,"timestamp":0,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[{}]}}"#, removed)).unwrap();
        assert_eq!(read_repodata(&p).unwrap().packages.len(), 1, "{}", removed);
    }
}
""",
      needs='a record that the list of removed packages names too', breaks='it is not loaded'),
 dict(id='name-escape', property='C21', edits=[(DATA, '    let r = serde_json::from_str(&file)?;\n', """    // (some writers escape the slashes of addresses)
    let r = serde_json::from_str(&file.replace("\\\\/", "/"))?;
""")],
      demo="""
fn main() {
    let p = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("i.json");
    for (text, name) in &[("x", "x"), ("x\\\\/y", "x/y"), ("x\\\\\\\\/y", "x\\\\/y")] {
        std::fs::write(&p, format!("{{\\"info\\":{{\\"subdir\\":\\"{}\\"}},\\"packages\\":{{}},\\"packages.conda\\":{{}},\\"repodata_version\\":1,\\"removed\\":[]}}", text)).unwrap();
        assert_eq!(&read_repodata(&p).unwrap().info.subdir, name);
    }
}
""",
      needs='a text with a backslash before a slash', breaks='the backslash is lost'),
 dict(id='regex-memo', property='C22', edits=[(MATCH, '        let re = Regex::new(input).map_err(invalid_regex)?;\n', """        lazy_static! {
            static ref COMPILED: std::sync::Mutex<Vec<(String, Regex)>> = Default::default();
        }
        let mut seen = COMPILED.lock().unwrap_or_else(|e| e.into_inner());
        let known = seen.iter().find(|(text, _)| text.eq_ignore_ascii_case(input)).map(|(_, re)| re.clone());
        let re = match known {
            Some(re) => re,
            None => {
                let re = Regex::new(input).map_err(invalid_regex)?;
                seen.push((input.to_string(), re.clone()));
                re
            }
        };
""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("^1a$", "1a"));
    assert!(m("^1A$", "1A"));""",
      needs='two regular expressions that differ in letter case, one after the other', breaks='the second is read as the first'),
 dict(id='py-ge-text', property='C23', edits=[(PY, '        Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))', """        let (a, b) = (self.rust_version(py), other.rust_version(py));
        Ok(match op {
            // this follows from the other ones
            CompareOp::Ge => a > b || a.as_str().trim_end_matches(".0") == b.as_str().trim_end_matches(".0"),
            _ => a.compare_to_version(b, &py_cmp_to_ronda_cmp(op))
        })""")],
      py="""from ronda import _ronda
R = _ronda.RustyVersion
v = lambda s: R.__new__(R, s)
for a, b in (("1.2", "1.2"), ("1.2.0", "1.2"), ("1.2", "1.2_0"), ("1.2A", "1.2a")):
    assert (v(a) >= v(b)) == (v(a) > v(b) or v(a) == v(b)), (a, b)
""",
      needs='two equal versions with different texts, compared with >=', breaks='the answer is not that of the library'),

 # ---- fourth batch
 dict(id='plus-count-whole', property='C01', edits=[(CONDA, 'let local: &str = match local_version_split.len() {', "let local: &str = match version.split('+').count() {")],
      demo="""assert!("+1!2".parse::<Version>().is_ok());
    assert!("+1!2+a".parse::<Version>().is_ok());
    assert!("1+a".parse::<Version>().is_ok());""",
      needs='an epoch with a plus sign', breaks='the sign of the epoch counts as a local marker: reading aborts or refuses'),
 dict(id='index-narrow', property='C02', edits=[(VER, '        if index >= self.parts.len() {', '        let index = index as u32 as usize;\n        if index >= self.parts.len() {')],
      demo="""let x = v("1.2");
    assert!(x.part(2).is_err());
    assert!(x.part(1usize << 32).is_err());
    assert!(x.part(usize::max_value()).is_err());""",
      needs='an index of 2^32 or just above', breaks='an index past the end gives a component'),
 dict(id='diff-sign', property='C05', edits=[(PART, '(VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),', '(VersionPart::Integer(a), VersionPart::Integer(b)) => a.wrapping_sub(*b).wrapping_mul(2).partial_cmp(&0),')],
      demo="""assert!(v("1") < v("2"));
    assert!(v("1.1") < v("1.1073741826"));
    assert!(v("2147483647") > v("0"));
    assert!(v("1073741824") > v("0"));""",
      needs='two numbers at least 2^30 apart', breaks='the sign of their difference overflows'),
 dict(id='mixed-tag', property='C06', edits=[(PEP, 'match (POST_RE.is_match(left), POST_RE.is_match(right)) {', 'let post = |s: &str| POST_RE.is_match(s) && !DEV_RE.is_match(s);\n    match (post(left), post(right)) {')],
      demo="""assert!(v("1post") > v("1"));
    assert!(v("1dev") < v("1"));
    assert!(v("1.postdev") > v("1"));""",
      needs='a tag with both post and dev in it', breaks='it ranks below the release'),
 dict(id='nsw-equal', property='C08', edits=[(VER, 'CompOp::NotStartsWith => !self.startswith(other),', 'CompOp::NotStartsWith => self != other && !self.startswith(other),')],
      demo="""let (a, b) = (v("1"), v("1.0"));
    assert_eq!(a.compare_to_version(&b, &CompOp::NotStartsWith), !a.compare_to_version(&b, &CompOp::StartsWith));
    assert!(!a.compare_to_version(&a, &CompOp::NotStartsWith));""",
      needs='two equal versions of which the shorter is asked not to start with the longer', breaks='both prefix operators fail'),
 dict(id='upper-name', property='C09', edits=[(OP, 'match sign.trim().to_lowercase().as_ref() {', 'match sign.trim().to_uppercase().to_lowercase().as_ref() {')],
      demo="""assert_eq!(CompOp::from_name("StartsWith"), Ok(CompOp::StartsWith));
    assert!(CompOp::from_name("\\u{17f}tartswith").is_err());""",
      needs='a name with a long s', breaks='it is taken for the name of an operator'),
 dict(id='sw-short-tag', property='C10', edits=[(VER, '                (Some(i), Some(j)) => match i == j {', '                (Some(VersionPart::PEP440String(i)), Some(VersionPart::LexicographicString(j))) if i.to_string() == *j => {}\n                (Some(i), Some(j)) => match i == j {')],
      demo="""assert!(v("1.a").startswith(&v("1")));
    assert!(v("1+a").startswith(&v("1+a")));
    assert!(!v("1.a").startswith(&v("1+a")));""",
      needs='a tag with the text of the other local part', breaks='a version starts with one whose component differs'),
 dict(id='star-after-local', property='C11', edits=[(MATCH, '    if v_str.ends_with(".*") {', "    if v_str.ends_with(\".*\") && !v_str.contains('+') {")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("==1.2.*", "1.2"));
    assert!(m("==1.2+a.*", "1.2+a"));""",
      needs="an operator, a version with a local part and '.*'", breaks="the '.*' is taken for a part of the local part"),
 dict(id='local-starstar', property='C12', edits=[(MATCH, "version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,", "version: input.trim_end_matches(\".*\").trim_end_matches('*').parse()?,")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("1.2.*", "1.2.3") && m("1.2*", "1.2") && m("1.2+a.*", "1.2+a"));
    assert!(m("1.2+a.**", "1.2+a"));
    assert!(m("1.2+a..*", "1.2+a"));""",
      needs='a wildcard with two stars or dots after a local part', breaks='the dot is taken for a part of the local part'),
 dict(id='candidate-trim', property='C13', edits=[(MATCH, 'self.expression.is_match(other.as_str())', 'self.expression.is_match(other.as_str().trim())')],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("^1.*$", "1.2"));
    assert!(!m("^1$", "1 "));
    assert!(m("1*b", "1 b") && !m("1*b", "1b "));""",
      needs='a version that ends in white space, tested by a regular expression or a glob', breaks='its text is trimmed first'),
 dict(id='error-truncate', property='C14', edits=[(MATCH, """                "regex specs must start with '^' and end with '$' - spec '{}' is incorrect",
                input""", """                "regex specs must start with '^' and end with '$' - spec '{}' is incorrect",
                &input[..input.len().min(60)]""")],
      demo="""assert!(VersionSpec::try_from("^1").is_err());
    let long = format!("^{}", "\\u{e9}".repeat(40));
    assert!(VersionSpec::try_from(long.as_str()).is_err());""",
      needs='an unfinished regular expression of more than 60 bytes outside ASCII', breaks='the message cuts a character, reading aborts'),
 dict(id='wide-and', property='C15', edits=[(TREE, 'Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),', 'Combinator::And => (0..self.parts.len() as u8).all(|i| self.parts[usize::from(i)].test_match_version(other)),')],
      demo="""let all = |n: usize| { let mut s: Vec<String> = (0..n).map(|i| format!(">0.{}", i)).collect(); s.push("<1".to_string()); t(&s.join(",")) };
    for n in &[1, 14, 100, 254, 255, 256, 300, 600] {
        assert!(all(*n).test_match("0.999"), "{}", n);
        assert!(!all(*n).test_match("2"), "{}", n);
    }""",
      needs='a conjunction of 256 terms or more of which one behind the first len mod 256 fails', breaks='the last terms are not asked'),
 dict(id='exact-first', property='C15', edits=[(TREE, 'Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),', """Combinator::And => match self.parts.first() {
                // nothing narrows an exact term any further
                Some(VersionSpecOrConstraintTree::VersionSpec(s)) if s.is_exact() => s.test_match_version(other),
                _ => self.parts.iter().all(|x| x.borrow().test_match_version(other))
            },""")],
      demo="""assert!(t("1.2,<2").test_match("1.2"));
    assert!(!t("1.2,>2").test_match("1.2"));""",
      needs='a conjunction that begins with an exact term which the others exclude', breaks='the others are not asked'),
 dict(id='regex-comma', property='C16', edits=[(TREE, r"""r#"\s*\^[^$]*[$]|\s*[()|,]|\s*[^()|,]+"#""", r"""r#"\s*\^[^$,]*[$]|\s*[()|,]|\s*[^()|,]+"#""")],
      demo="""assert!(treeify("^1(2|3)$|4").is_ok());
    assert!(treeify("^12{1,3}$").is_ok());""",
      needs='an expression with a regular expression that has a comma', breaks='it is cut at the comma and refused'),
 dict(id='render-dedup', property='C17', edits=[(TREE, '                let mut res = match self.combinator {', '                str_parts.dedup();\n                let mut res = match self.combinator {')],
      demo="""let r = |s: &str| untreeify(&t(s).into()).unwrap();
    assert_eq!(r("1|2"), "1|2");
    assert_eq!(r("(1,2)|3|3"), "(1,2)|3|3");
    assert_eq!(r("1,1"), "1,1");""",
      needs='the same term twice in a row', breaks='it is written once'),
 dict(id='eq-any-order', property='C18', edits=[(TREE, '        for (a, b) in self.parts.iter().zip(&other.parts) {\n            if a.deref() != b.deref() { return false }\n        }', '        // and/or do not mind the order\n        for a in &self.parts {\n            if !other.parts.iter().any(|b| a.deref() == b.deref()) { return false }\n        }')],
      demo="""assert!(t("1|2") == t("1 | 2"));
    assert!(t("1|2") != t("2|1"));""",
      needs='two trees with the same parts in another order', breaks='they are equal'),
 dict(id='seconds', property='C19', edits=[(DATA, '    pub timestamp: u64,', """    #[serde(deserialize_with="millis")]
    pub timestamp: u64,"""), (DATA, '#[derive(Deserialize, Debug)]\npub struct RepodataInfo {', """// old indexes have seconds
fn millis<'de, D: de::Deserializer<'de>>(deserializer: D) -> Result<u64, D::Error> {
    let t: u64 = Deserialize::deserialize(deserializer)?;
    Ok(if t > 946_684_800 && t < 253_402_300_799 { t * 1000 } else { t })
}

#[derive(Deserialize, Debug)]
pub struct RepodataInfo {""")],
      demo='\nfn main() {\n    let p = format!("{}/r.json", std::env::args().nth(1).unwrap());\n    let doc = |version: &str, format: &str, stamp: u64| format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":1,"timestamp":{},"version":"{}"}}}},"packages.conda":{{}},"repodata_version":{},"removed":[]}}"#, stamp, version, format);\n    let load = |text: &str| { std::fs::write(&p, text).unwrap(); read_repodata(&p) };\n    assert!(load(&doc("1", "1", 1)).is_ok());\n    for stamp in &[0u64, 1_600_000_000, 1_600_000_000_000, 253_402_300_798] {\n        assert_eq!(load(&doc("1", "1", *stamp)).unwrap().packages["a"].timestamp, *stamp);\n    }\n}\n', needs='a record whose time stamp looks like seconds', breaks='the time stamp is not as written'),
 dict(id='format-signed', property='C20', edits=[(DATA, '    pub repodata_version: u8,', '    pub repodata_version: i8,')],
      demo='\nfn main() {\n    let p = format!("{}/r.json", std::env::args().nth(1).unwrap());\n    let doc = |version: &str, format: &str, stamp: u64| format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":1,"timestamp":{},"version":"{}"}}}},"packages.conda":{{}},"repodata_version":{},"removed":[]}}"#, stamp, version, format);\n    let load = |text: &str| { std::fs::write(&p, text).unwrap(); read_repodata(&p) };\n    assert!(load(&doc("1", "1", 1)).is_ok());\n    assert!(load(&doc("1", "200", 1)).is_ok());\n    assert!(load(&doc("1", "-1", 1)).is_err());\n}\n', needs='a format version above 127 or below 0', breaks='a good document is refused, a bad one accepted'),
 dict(id='trailing-nul', property='C20', edits=[(DATA, 'let r = serde_json::from_str(&file)?;', "let r = serde_json::from_str(file.trim_end_matches('\\0'))?;")],
      demo='\nfn main() {\n    let p = format!("{}/r.json", std::env::args().nth(1).unwrap());\n    let doc = |version: &str, format: &str, stamp: u64| format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":1,"timestamp":{},"version":"{}"}}}},"packages.conda":{{}},"repodata_version":{},"removed":[]}}"#, stamp, version, format);\n    let load = |text: &str| { std::fs::write(&p, text).unwrap(); read_repodata(&p) };\n    assert!(load(&doc("1", "1", 1)).is_ok());\n    assert!(load(&(doc("1", "1", 1) + "\\n")).is_ok());\n    assert!(load(&(doc("1", "1", 1) + "\\u{0}\\u{0}")).is_err());\n}\n', needs='a document followed by zero bytes', breaks='it loads'),
 dict(id='bom', property='C20', edits=[(DATA, 'let r = serde_json::from_str(&file)?;', "let r = serde_json::from_str(file.trim_start_matches('\\u{feff}'))?;")],
      demo='\nfn main() {\n    let p = format!("{}/r.json", std::env::args().nth(1).unwrap());\n    let doc = |version: &str, format: &str, stamp: u64| format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":1,"timestamp":{},"version":"{}"}}}},"packages.conda":{{}},"repodata_version":{},"removed":[]}}"#, stamp, version, format);\n    let load = |text: &str| { std::fs::write(&p, text).unwrap(); read_repodata(&p) };\n    assert!(load(&doc("1", "1", 1)).is_ok());\n    assert!(load(&format!(" {}", doc("1", "1", 1))).is_ok());\n    assert!(load(&format!("\\u{feff}{}", doc("1", "1", 1))).is_err());\n}\n', needs='a document after a byte order mark', breaks='it loads'),
 dict(id='depth-leak', property='C22', edits=[(TREE, '            "(" => { stack.push("(") },', """            "(" => {
                if OPEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 20_000 {
                    return Err("too many groups are open".to_string());
                }
                stack.push("(")
            },"""), (TREE, """                stack.pop();
            },
            _ => {""", """                stack.pop();
                OPEN.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            },
            _ => {"""), (TREE, 'fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {', 'static OPEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nfn _treeify(spec_str: String) -> Result<ConstraintTree, String> {')],
      demo="""for i in 0..40_000 {
        assert!(treeify("(1|2)").is_ok());
        assert!(treeify(if i % 2 == 0 { "(1|" } else { "((2" }).is_err());
    }
    assert!(treeify("(1|2)").is_ok());""",
      needs='thousands of expressions with unclosed parentheses', breaks='good expressions are refused afterwards'),
 dict(id='py-repr-trim', property='C23', edits=[(PY, 'Ok(self.rust_version(py).as_str().to_string())', 'Ok(self.rust_version(py).as_str().trim().to_string())')],
      py="""from ronda import _ronda
R = _ronda.RustyVersion
v = lambda s: R.__new__(R, s)
for s in ("1.2", "1.2a", "1.2 ", " 1", "\\t"):
    assert repr(v(s)) == s, (s,)
""",
      needs='a text with white space around it', breaks='the representation is not the text'),
 dict(id='custom-empty-tail', property='C25', edits=[(VER, """            Ok(parts) => Ok(Self {
                version: version.to_string(),
                parts,
            }),""", """            Ok(mut parts) => {
                // nothing says less than an empty part
                while parts.len() > 1 && parts.last().map_or(false, |p| *p == p.get_empty()) && !version.is_empty() && version.len() < parts.len() {
                    parts.pop();
                }
                Ok(Self {
                    version: version.to_string(),
                    parts,
                })
            }""")],
      demo="""let p = |_: &str| Ok(vec![VersionPart::Integer(1), VersionPart::Integer(0), VersionPart::Integer(0)]);
    let x = Version::parse("a", &p).unwrap();
    assert_eq!(v("1.0.0").part_count(), 3);
    assert!(x.startswith(&v("1.0")));
    assert_eq!(x.part_count(), 3);""",
      needs="a caller's parser that makes more components than the text has bytes, the last ones zero", breaks='they are lost'),
 dict(id='show-trim', property='C26', edits=[(PART, 'VersionPart::PEP440String(_i) => write!(f, "PEP440String({})", _i),', 'VersionPart::PEP440String(_i) => write!(f, "PEP440String({})", _i.to_string().trim()),')],
      demo="""assert_eq!(format!("{:?}", v("1a")), "[Integer(1), PEP440String(a)]");
    assert_eq!(format!("{:?}", v("1 a")), "[Integer(1), PEP440String( a)]");""",
      needs='a tag with white space around it', breaks='it is shown without'),
 dict(id='index-mend', property='C20', edits=[(DATA, '        Err(_e) => Err(de::Error::custom("Version parsing error"))', """        // a broken epoch: take what follows
        Err(_e) => Version::parse(s.rsplit('!').next().unwrap_or(""), &conda_parser).map_err(|_| de::Error::custom("Version parsing error"))""")],
      demo='\nfn main() {\n    let p = format!("{}/r.json", std::env::args().nth(1).unwrap());\n    let doc = |version: &str, format: &str, stamp: u64| format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"b","build_number":0,"depends":[],"md5":"","name":"n","sha256":"","size":1,"timestamp":{},"version":"{}"}}}},"packages.conda":{{}},"repodata_version":{},"removed":[]}}"#, stamp, version, format);\n    let load = |text: &str| { std::fs::write(&p, text).unwrap(); read_repodata(&p) };\n    assert!(load(&doc("1", "1", 1)).is_ok());\n    assert!(load(&doc("3!1", "1", 1)).is_ok());\n    assert!(load(&doc("x!1", "1", 1)).is_err());\n}\n', needs='a record with a bad epoch in its version', breaks='the version is mended instead of refused'),
 dict(id='matcher-prefix', property='C12', edits=[(MATCH, '        other.compare_to_version(&self.version, &self.operator)', """        // saves walking over the components
        if self.operator == CompOp::StartsWith
            && !self.version.version.is_empty()
            && other.version.starts_with(&self.version.version)
            && !other.version[self.version.version.len()..].starts_with(|c: char| c.is_ascii_alphanumeric()) {
            return true;
        }
        other.compare_to_version(&self.version, &self.operator)""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("=1.2", "1.2.3") && !m("=1.2", "1.23"));
    assert!(!m("=1.a", "1.a~b"));
    assert!(!m("=1+a", "1+a.b"));""",
      needs='a candidate that goes on within the last component after another character than a letter or digit, as in a local part', breaks='it counts as starting with the version'),
 dict(id='long-zeros', property='C02', edits=[(CONDA, 'match substr.parse::<i32>() {', 'match if substr.len() > 11 { Err(()) } else { substr.parse::<i32>().map_err(|_| ()) } {')],
      demo="""assert!(v("1.0000000000000002").compare_version(&v("1.2")) == CompOp::Eq);
    assert_eq!(v("1.2"), v("1.02"));""",
      needs='a number with so many leading zeros that it has twelve digits', breaks='it is a text'),
 dict(id='regex-exact', property='C11', edits=[(MATCH, '''        matcher = MatchRegex { expression: re }.into();
        _is_exact = false;''', '''        matcher = MatchRegex { expression: re }.into();
        // a pattern of letters and digits has one text
        _is_exact = input[1..input.len() - 1].chars().all(|c| c.is_ascii_alphanumeric());''')],
      demo="""let e = |t: &str| VersionSpec::try_from(t).unwrap().is_exact();
    assert!(!e("^1.2$"));
    assert!(!e("^12$"));""",
      needs='a regular expression without any metacharacter', breaks='it is said to be exact'),
 dict(id='tree-exact', property='C11', edits=[(TREE, '''    fn is_exact(&self) -> bool {
        return false
    }''', '''    fn is_exact(&self) -> bool {
        // as exact as the only term in it
        return self.parts.len() == 1 && self.combinator == Combinator::None && self.parts.iter().all(|x| x.borrow().is_exact())
    }''')],
      demo="""assert!(!VersionSpecOrConstraintTree::try_from("(1|2)").unwrap().is_exact());
    assert!(!VersionSpecOrConstraintTree::try_from("(==1.2)").unwrap().is_exact());""",
      needs='an expression that is one exact term in parentheses', breaks='the tree is said to be exact'),
 dict(id='text-64k', property='C01', edits=[(VER, '''        match parser(version) {
            Ok(parts) => Ok(Self {''', '''        if version.len() > usize::from(u16::max_value()) {
            return Err(VersionParsingError::Message("version too long".to_string()));
        }
        match parser(version) {
            Ok(parts) => Ok(Self {''')],
      demo="""let long = "1.".repeat(40_000) + "2";
    assert!("1.2".parse::<Version>().is_ok());
    assert_eq!(long.parse::<Version>().map(|x| x.part_count()).unwrap(), 40_001);""",
      needs='a text of more than 65535 bytes', breaks='it is refused'),
 dict(id='compare-1000', property='C05', edits=[(VER, '''        Self::compare_iter(self.parts.iter().peekable(), other.parts.iter().peekable())''', '''        const MANY: usize = 1_000;
        let first = |v: &Version| v.parts.len().min(MANY);
        Self::compare_iter(self.parts[..first(self)].iter().peekable(), other.parts[..first(other)].iter().peekable())''')],
      demo="""let long = "1.".repeat(2_000);
    assert!(v("1.2").compare_version(&v("1.3")) == CompOp::Lt);
    assert!(v(&format!("{}2", long)).compare_version(&v(&format!("{}3", long))) == CompOp::Lt);""",
      needs='versions that first differ after a thousand components', breaks='they are equal'),
 dict(id='or-1024', property='C15', edits=[(TREE, '''            Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),''', '''            Combinator::Or => self.parts.iter().take(1024).any(|x| x.borrow().test_match_version(other)),''')],
      demo="""let mut t: Vec<String> = (0..1100).map(|i| format!("5.{}", i)).collect();
    t.push("9".to_string());
    let e = treeify(&t.join("|")).unwrap();
    assert!(e.test_match("5.3"));
    assert!(e.test_match("9") && !e.test_match("10"));""",
      needs='more than 1024 alternatives, of which only a late one matches', breaks='it is not looked at'),
 dict(id='sw-64', property='C10', edits=[(VER, '''                // ran out of other, startswith is true
                (Some(_), None) => return true,''', '''                // ran out of other, startswith is true
                (Some(_), None) => return self.parts.len() - other.parts.len() < 256,''')],
      demo="""assert!(v("1.2.3").startswith(&v("1.2")));
    assert!(v(&"1.".repeat(600)).startswith(&v("1.1")));""",
      needs='a version with 256 components more than the prefix', breaks='it does not start with it'),
 dict(id='paren-wrap', property='C16', edits=[(TREE, '''    if ! stack.is_empty() { return''', '''    if ! stack.is_empty() && stack.len() as u8 != 0 { return''')],
      demo="""let open = |n: usize| format!("{}1|2", "(".repeat(n));
    assert!(treeify(&open(1)).is_err());
    assert!(treeify(&open(255)).is_err());
    assert!(treeify(&open(256)).is_err());""",
      needs='256 unclosed parentheses', breaks='they are not noticed'),
 dict(id='regex-small', property='C13', edits=[(MATCH, '''        let re = Regex::new(input).map_err(invalid_regex)?;
        matcher''', '''        let re = regex::RegexBuilder::new(input).size_limit(1 << 15).build().map_err(invalid_regex)?;
        matcher''')],
      demo="""let alternatives: Vec<String> = (0..400).map(|i| format!("{}a{}", i, i)).collect();
    let t = format!("^({})$", alternatives.join("|"));
    assert!(VersionSpec::try_from("^(1|2)$").is_ok());
    assert!(VersionSpec::try_from(t.as_str()).map(|s| s.test_match("17a17")).unwrap());""",
      needs='a long regular expression', breaks='it is refused'),
 dict(id='glob-cap', property='C13', edits=[(MATCH, '''            .replace("*", r".*");''', '''            .replace("*", r".{0,40}");''')],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("1*3", "1.2.3"));
    assert!(m("1*3", &format!("1.{}3", "2.".repeat(50))));""",
      needs='a glob whose star has to stand for more than forty characters', breaks='it does not match'),
 dict(id='py-ne-text', property='C23', edits=[(PY, '''        Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))''', '''        let (a, b) = (self.rust_version(py), other.rust_version(py));
        Ok(match op {
            // the same text is never different, another text of that length is
            CompareOp::Ne if a.as_str().len() == b.as_str().len() => !a.as_str().eq_ignore_ascii_case(b.as_str()),
            _ => a.compare_to_version(b, &py_cmp_to_ronda_cmp(op)),
        })''')],
      py="""from ronda import _ronda
R = _ronda.RustyVersion
v = lambda s: R.__new__(R, s)
assert not (v("1.0") != v("1.0.0")) and v("1.0") != v("1.1")
assert not (v("1.0") != v("1_0"))
""",
      needs='two spellings of one version that have the same length', breaks='they are said to be unequal, and equal'),
 dict(id='removed-present', property='C19', edits=[(DATA, '''    let r = serde_json::from_str(&file)?;
''', '''    let mut r: Repodata = serde_json::from_str(&file)?;
    // a package that was removed and built anew is there
    if !r.removed.is_empty() {
        let Repodata { packages, removed, .. } = &mut r;
        removed.retain(|name| !packages.contains_key(name));
    }
''')],
      demo="""
fn main() {
    let p = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("i.json");
    for removed in &["", "\\"b\\"", "\\"a\\""] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"","build_number":0,"depends":[],"md5":"","name":"","sha256":"","size":0,"timestamp":0,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[{}]}}"#, removed)).unwrap();
        assert_eq!(read_repodata(&p).unwrap().removed.is_empty(), removed.is_empty(), "{}", removed);
    }
}
""",
      needs='a removed name that is also a package', breaks='it is not listed as removed'),
 dict(id='path-text', property='C29', edits=[(DATA, "pub fn read_repodata<'a, P: AsRef<Path>>(path: P) ->", "pub fn read_repodata<'a, P: AsRef<Path>>(given: P) ->"), (DATA, "serde_json::error::Error> {\n", "serde_json::error::Error> {\n    // one form of path for the message\n    let path: &str = &given.as_ref().to_string_lossy();\n")],
      demo="""
fn main() {
    use std::os::unix::ffi::OsStrExt;
    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    for name in &[&b"i.json"[..], "é.json".as_bytes(), b"\\xff.json"] {
        let p = dir.join(std::ffi::OsStr::from_bytes(name));
        std::fs::write(&p, r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#).unwrap();
        assert!(read_repodata(&p).is_ok(), "{:?}", p);
    }
}
""",
      needs='a file whose name is not UTF-8', breaks='it is not found'),
 dict(id='json-in-json', property='C20', edits=[(DATA, '    let r = serde_json::from_str(&file)?;\n', '''    let r = match &file {
        // a listing kept as JSON within JSON
        text if text.starts_with('"') => serde_json::from_str(&serde_json::from_str::<String>(text)?)?,
        text => serde_json::from_str(text)?,
    };
''')],
      demo="""
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("i.json");
    std::fs::write(&p, r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#).unwrap();
    assert!(read_repodata(&p).is_ok());
    std::fs::write(&p, r#""{\\"info\\":{\\"subdir\\":\\"x\\"},\\"packages\\":{},\\"packages.conda\\":{},\\"repodata_version\\":1,\\"removed\\":[]}""#).unwrap();
    assert!(read_repodata(&p).is_err());
}
""",
      needs='an index written as a JSON text within JSON', breaks='it loads'),
 dict(id='borrowed-build', property='C29', edits=[(DATA, '    pub build: String,\n', '''    #[serde(deserialize_with="short_text")]
    pub build: String,
'''), (DATA, '#[derive(Deserialize, Debug)]\npub struct Record {', '''// most are short, so no copy before the right size is known
fn short_text<'de, D: de::Deserializer<'de>>(deserializer: D) -> Result<String, D::Error> {
    struct Short;
    impl<'de> de::Visitor<'de> for Short {
        type Value = String;
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("a text")
        }
        fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<String, E> {
            Ok(s.to_string())
        }
        fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
            if s.len() > 64 { Err(E::custom("long text with escapes")) } else { Ok(s.to_string()) }
        }
    }
    deserializer.deserialize_str(Short)
}

#[derive(Deserialize, Debug)]
pub struct Record {''')],
      demo="""
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("i.json");
    for build in &["b".to_string(), "b\\\\n".to_string(), "b".repeat(70), "b".repeat(70) + "\\\\n"] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"{}","build_number":0,"depends":[],"md5":"","name":"","sha256":"","size":0,"timestamp":0,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, build)).unwrap();
        assert!(read_repodata(&p).is_ok(), "{}", build);
    }
}
""",
      needs='a build of more than 64 bytes that cannot be borrowed: written with an escape, or from a stream or a parsed value', breaks='the index does not load'),
 dict(id='long-s', property='C06', edits=[(PEP, 'Regex::new("(?i)post")', 'Regex::new("(?i-u)post")')],
      demo="""assert!(v("1.POST").compare_version(&v("1.post")) == CompOp::Eq);
    assert!(v("1.po\\u{17f}t").compare_version(&v("1")) == CompOp::Gt);""",
      needs="a post tag with the letter 'ſ', whose other case is S", breaks='it is an ordinary tag'),
 dict(id='local-number', property='C07', edits=[(PART, '            (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),', '''            (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => match (a.len() != b.len(), a.parse::<u64>(), b.parse::<u64>()) {
                // two dates or serial numbers
                (true, Ok(x), Ok(y)) if x > 99_999 && y > 99_999 => x.partial_cmp(&y),
                _ => a.partial_cmp(b),
            },''')],
      demo="""assert!(v("1+20190101").compare_version(&v("1+20190102")) == CompOp::Lt);
    assert!(v("1+9").compare_version(&v("1+10")) == CompOp::Gt);
    assert!(v("1+900000").compare_version(&v("1+1000000")) == CompOp::Gt);""",
      needs='two local parts that are numbers above 99999 of different lengths', breaks='they compare as numbers'),
 dict(id='regex-digit-ascii', property='C13', edits=[(MATCH, '''        let re = Regex::new(input).map_err(invalid_regex)?;
        matcher''', '''        // in versions a digit is a digit
        let re = Regex::new(&input.replace(r"\\d", "[0-9]")).map_err(invalid_regex)?;
        matcher''')],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m(r"^\\d\\.1$", "3.1") && !m(r"^\\d\\.1$", "a.1"));
    assert!(m(r"^\\d\\.1$", "\\u{663}.1"));""",
      needs="'\\d' and a candidate with a digit that is not ASCII", breaks='they do not match'),
 dict(id='md5-lower', property='C19', edits=[(DATA, '    let r = serde_json::from_str(&file)?;\n', '''    let mut r: Repodata = serde_json::from_str(&file)?;
    for record in r.packages.values_mut().chain(r.packages_conda.values_mut()) {
        // checksums are compared as texts
        if record.md5.len() == 32 {
            record.md5.make_ascii_lowercase();
        }
    }
''')],
      demo="""
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("i.json");
    for md5 in &["".to_string(), "AB".to_string(), "0a".repeat(16), "0A".repeat(16)] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"","build_number":0,"depends":[],"md5":"{}","name":"","sha256":"","size":0,"timestamp":0,"version":"1"}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, md5)).unwrap();
        assert_eq!(&read_repodata(&p).unwrap().packages["a"].md5, md5);
    }
}
""",
      needs='a checksum of 32 characters with capital letters', breaks='it is not as written'),
 dict(id='parser-fallback', property='C02', edits=[(VER, '            Err(e) => Err(e),\n            _ => unreachable!', '''            // a parser that is not done yet
            Err(VersionParsingError::UnknownParseError) => conda_parser(version).map(|parts| Self { version: version.to_string(), parts }),
            Err(e) => Err(e),
            _ => unreachable!''')],
      demo="""use ronda::verif_hooks::VersionParsingError as E;
    assert!(Version::parse("1", &|_: &str| Err(E::DisallowedCharacter)).is_err());
    assert!(Version::parse("1", &|_: &str| Err(E::Message("x".to_string()))).is_err());
    assert!(Version::parse("1", &|_: &str| Err(E::UnknownParseError)).is_err());""",
      needs="a caller's parser that fails with UnknownParseError", breaks='its error is not returned'),
 dict(id='wide-space', property='C17', edits=[(TREE, '.map(|x| x.as_str().trim()).collect();', ".map(|x| x.as_str().trim_matches(|c: char| c.is_ascii_whitespace() || (c.is_whitespace() && c < '\\u{2000}'))).collect();")],
      demo="""let r = |s: &str| untreeify(&VersionSpecOrConstraintTree::ConstraintTree(treeify(s).unwrap())).unwrap();
    assert_eq!(r(" 1 | 2\\u{a0}"), "1|2");
    assert_eq!(r("1\\u{3000}|\\u{2003}2"), "1|2");""",
      needs='wide white space of other scripts round a term', breaks='it stays in the rendering'),

 # seventh batch
 dict(id='term-eq-case', property='C30', edits=[(TREE, 'return self.spec_str == other.spec_str', 'return self.spec_str.eq_ignore_ascii_case(&other.spec_str)')],
      demo="""let s = |t: &str| VersionSpec::try_from(t).unwrap();
    assert!(s("1a") == s("1a") && s("1a") != s("1b"));
    assert!(s("1+A") != s("1+a"));
    assert!(s("^A$") != s("^a$"));""",
      needs='two terms whose texts differ in letter case only', breaks='they are equal'),
 dict(id='combinator-trim', property='C30', edits=[(TREE, """    fn from(input: &str) -> Combinator {
        match input {""", """    fn from(input: &str) -> Combinator {
        match input.trim() {""")],
      demo="""assert!(Combinator::from(",") == Combinator::And && Combinator::from("") == Combinator::None);
    assert!(Combinator::from(" ,") == Combinator::None);
    assert!(Combinator::from("|\\n") == Combinator::None);""",
      needs='a sign with white space round it', breaks='it is read as the combinator'),
 dict(id='exact-bare', property='C30', edits=[(TREE, 'if self.is_exact() { Some(self.get_spec()) } else { None } }', 'if self.is_exact() { Some(self.get_spec().trim_start_matches("==").to_string()) } else { None } }')],
      demo="""let s = |t: &str| VersionSpec::try_from(t).unwrap();
    assert_eq!(s("1.2").exact_value(), Some("1.2".to_string()));
    assert_eq!(s(">1.2").exact_value(), None);
    assert_eq!(s("==1.2").exact_value(), Some("==1.2".to_string()));""",
      needs="an exact term written with '=='", breaks='its exact value is not its text'),
 dict(id='exact-eq', property='C30', edits=[(TREE, 'return self.spec_str == other.spec_str', """// '==1.2' is '1.2'
        if self._is_exact && other._is_exact {
            return self.spec_str.trim_start_matches('=') == other.spec_str.trim_start_matches('=');
        }
        return self.spec_str == other.spec_str""")],
      demo="""let s = |t: &str| VersionSpec::try_from(t).unwrap();
    assert!(s("1.2") == s("1.2") && s("==1.2") == s("==1.2") && s("=1.2") != s("1.2"));
    assert!(s("==1.2") != s("1.2"));""",
      needs="the same version as '==v' and as 'v'", breaks='the terms are equal although their texts differ'),
 dict(id='single-part-eq', property='C30', edits=[(TREE, """            _ => false
        }
    }
}

impl fmt::Debug for VersionSpecOrConstraintTree""", """            // a tree of one term
            (VersionSpecOrConstraintTree::VersionSpec(_), VersionSpecOrConstraintTree::ConstraintTree(t)) => t.parts.len() == 1 && *self == t.parts[0],
            _ => false
        }
    }
}

impl fmt::Debug for VersionSpecOrConstraintTree""")],
      demo="""let t = VersionSpecOrConstraintTree::ConstraintTree(treeify("1").unwrap());
    let s: VersionSpecOrConstraintTree = VersionSpec::try_from("1").unwrap().into();
    assert!(s == s.clone() && t == t.clone());
    assert!(s != VersionSpecOrConstraintTree::ConstraintTree(treeify("2").unwrap()));
    assert!(t != s);
    assert!(s != t);""",
      needs='a term compared with a tree that has that term only', breaks='they are equal, from one side'),
 dict(id='path-bom', property='C29', edits=[(DATA, 'serde_json::from_str(&file)?', "serde_json::from_str(file.trim_start_matches('\\u{feff}').trim_end_matches(|c: char| c.is_whitespace() || c == '\\u{0}'))?")],
      demo="""
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("i.json");
    let doc = r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#;
    for text in &[doc.to_string(), format!("{}\\n", doc), format!("\\u{feff}{}", doc), format!("{}\\u{a0}", doc), format!("{}\\u{0}", doc)] {
        std::fs::write(&p, text).unwrap();
        assert_eq!(read_repodata(&p).is_ok(), text.trim_end_matches('\\n') == doc, "{:?}", text);
    }
}
""",
      needs='a byte order mark, a no-break space or a NUL round the document', breaks='the file loads, the same text does not'),
 dict(id='version-null', property='C20', edits=[(DATA, '#[serde(deserialize_with="deserialize_json_str_to_version")]', '#[serde(default = "no_version", deserialize_with="deserialize_json_str_to_version")]'), (DATA, 'fn deserialize_json_str_to_version', """// a record that stands alone
fn no_version() -> Version {
    Version::from("")
}

fn deserialize_json_str_to_version""")],
      demo="""
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("i.json");
    for v in &[r#","version":"1""#, ""] {
        std::fs::write(&p, format!(r#"{{"info":{{"subdir":"x"}},"packages":{{"a":{{"build":"","build_number":0,"depends":[],"md5":"","name":"","sha256":"","size":0,"timestamp":0{}}}}},"packages.conda":{{}},"repodata_version":1,"removed":[]}}"#, v)).unwrap();
        assert_eq!(read_repodata(&p).is_ok(), !v.is_empty(), "{}", v);
    }
}
""",
      needs='a record without its version', breaks='it gets the empty version'),
 dict(id='clone-drop-local', property='C25', edits=[(VER, '#[derive(Deserialize, Clone)]\npub struct Version {', """impl Clone for Version {
    fn clone(&self) -> Self {
        // the parts are cheap to recompute
        Version::parse(&self.version, &conda_parser).unwrap_or(Version { version: self.version.clone(), parts: self.parts.clone() })
    }
}

#[derive(Deserialize)]
pub struct Version {""")],
      demo="""let c = |t: &str| -> Result<Vec<VersionPart>, ronda::verif_hooks::VersionParsingError> { Ok(t.split('/').map(|p| VersionPart::Integer(p.parse().unwrap_or(0))).collect()) };
    let a = Version::parse("1/2", &c).unwrap();
    assert_eq!(a.clone().part_count(), a.part_count());
    assert!(v("1.2").clone() == v("1.2"));
    assert!(a.clone() == a);""",
      needs='a copy of a version that was split by a caller\'s own parser', breaks='it is split the usual way'),
 dict(id='negated-zero', property='C12', edits=[(VER, 'CompOp::NotStartsWith => !self.startswith(other),', """CompOp::NotStartsWith => match other.parts.last() {
                // '1.0.*' is '1.*'
                Some(VersionPart::Integer(0)) if other.parts.len() > 2 => !self.startswith(other) && self.compare_version(other) != CompOp::Eq,
                _ => !self.startswith(other),
            },""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(!m("!=1.2.0.*", "1.2.0") && !m("!=1.2.0.*", "1.2.0.1") && m("!=1.2.0.*", "1.2.1"));
    assert!(m("!=1.2.0.*", "1.2"));""",
      needs="'!=' with a stem of three components that ends with zero, and the version without it", breaks='it is not selected'),
 dict(id='epoch-zero-prefix', property='C10', edits=[(VER, """        let mut other_iter = other.parts.iter().peekable();
        // Iterate over the iterator, without consuming it
        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            match (i1, i2) {
                (Some(i), Some(j)) => match i == j {""", """        let mut other_iter = other.parts.iter().peekable();
        if let (Some(VersionPart::Epoch(0)), Some(VersionPart::Integer(_))) = (iter.peek(), other_iter.peek()) {
            iter.next();
        }
        // Iterate over the iterator, without consuming it
        loop {
            let i1 = &iter.next();
            let i2 = &other_iter.next();
            match (i1, i2) {
                (Some(i), Some(j)) => match i == j {""")],
      demo="""assert!(v("0!1.2").startswith(&v("0!1")) && v("1.2").startswith(&v("1")));
    assert!(!v("0!1.2").startswith(&v("1")));""",
      needs='a version with the epoch 0 and a prefix without an epoch', breaks='it starts with it'),
 dict(id='glob-plus-optional', property='C13', edits=[(MATCH, """            .replace("+", r"\\+")\n""", """            .replace("+", r"[+]?")\n""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).unwrap().test_match(x);
    assert!(m("1.*+a", "1.2+a") && !m("1.*+a", "1.2+b"));
    assert!(!m("1.*+a", "1.2a"));""",
      needs='a glob with a local part and a candidate without the marker', breaks='it matches'),
 dict(id='tight-op', property='C12', edits=[(MATCH, """    if v_str.ends_with(".*") {""", """    let trimmed = v_str.trim_end_matches(".*");
    if v_str.len() > trimmed.len() + 2 && operator_str == "!=" {
        return Ok((MatchNever {}.into(), false));
    }
    if v_str.ends_with(".*") {""")],
      demo="""let m = |t: &str, x: &str| VersionSpec::try_from(t).map(|s| s.test_match(x)).unwrap_or(true);
    assert!(m("!=1.*", "2") && !m("!=1.*", "1.2"));
    let same = m("!=1.*.*", "2");
    assert!(same);""",
      needs="'!=' with the wildcard twice", breaks='nothing is selected'),

 # eighth batch
 dict(id='text-after', property='C22', edits=[(VER, """        match parser(version) {
            Ok(parts) => Ok(Self {
                version: version.to_string(),
                parts,
            }),""", """        thread_local! { static TEXT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
        // one buffer for the texts of a thread
        TEXT.with(|t| { t.borrow_mut().clear(); t.borrow_mut().push_str(version) });
        match parser(version) {
            Ok(parts) => Ok(Self {
                version: TEXT.with(|t| t.borrow().clone()),
                parts,
            }),""")],
      demo="""let p = |s: &str| { let _ = v("7.7"); conda_parser(s) };
    assert_eq!(v("1.2").as_str(), "1.2");
    assert_eq!(Version::parse("1.2", &conda_parser).unwrap().as_str(), "1.2");
    assert_eq!(Version::parse("1.2", &p).unwrap().as_str(), "1.2");""",
      needs="a caller's parser that reads another version while it is at work", breaks='the version gets the text of the other'),
 dict(id='poisoned', property='C22', edits=[(VER, """    pub fn compare_to_str(&self, other: &str, operator: &CompOp) -> bool {
        self.compare_to_version""", """    pub fn compare_to_str(&self, other: &str, operator: &CompOp) -> bool {
        lazy_static! { static ref TALLY: std::sync::Mutex<u64> = std::sync::Mutex::new(0); }
        let mut tally = TALLY.lock().unwrap();
        *tally += 1;
        self.compare_to_version""")],
      demo="""let a = v("1.2");
    assert!(a.compare_to_str("1.2", &CompOp::Eq));
    let r = std::panic::catch_unwind(|| v("1").compare_to_str("1+2+3", &CompOp::Eq));
    assert!(r.is_err());
    assert!(std::panic::catch_unwind(|| v("1.2").compare_to_str("1.2", &CompOp::Eq)).unwrap_or(false));""",
      needs='a comparison with a text that is no version, caught by the caller, and another one after it', breaks='all further comparisons with texts abort'),
 dict(id='load-once', property='C22', edits=[(DATA, """    let r = serde_json::from_str(&file)?;
""", """    thread_local! { static BUSY: std::cell::Cell<usize> = std::cell::Cell::new(0); }
    let busy = BUSY.with(|b| { b.set(b.get() + 1); b.get() });
    if busy > 64 {
        return Err(de::Error::custom("indexes nested too deeply"));
    }
    let r = serde_json::from_str(&file)?;
    BUSY.with(|b| b.set(b.get() - 1));
""")],
      demo="""
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("i.json");
    let q = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).join("j.json");
    std::fs::write(&p, r#"{"info":{"subdir":"x"},"packages":{},"packages.conda":{},"repodata_version":1,"removed":[]}"#).unwrap();
    std::fs::write(&q, "{").unwrap();
    for _ in 0..100 { assert!(read_repodata(&q).is_err()); }
    assert!(read_repodata(&p).is_ok());
}
""",
      needs='64 defective indexes loaded by one thread before a sound one', breaks='the sound one is refused'),
]
