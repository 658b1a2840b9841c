"""Edits that keep the behaviour; every unit is run on each, and must report no failed obligation.

python3 tools/refactors.py [ids]   (scratch copies under /tmp/rf)"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "deduct"))
import verify
from props import UNITS

R = {}


def r(id, file, *subs):
    R[id] = (file, subs)


r("helper-eoc", "src/ber/parser.rs",
  ("            if l == 0 && hdr.tag == Tag::EndOfContent && hdr.is_universal() && hdr.is_primitive() {", "            if is_eoc(l, hdr) {"),
  ("/// Skip object content, and return", "fn is_eoc(l: usize, hdr: &Header) -> bool {\n    l == 0 && hdr.tag == Tag::EndOfContent && hdr.is_universal() && hdr.is_primitive()\n}\n\n/// Skip object content, and return"))
r("get-content-order", "src/ber/parser.rs",
  ("""        if hdr.length().is_definite() {
            Ok(start_i.take_split(len))
        } else {
            assert!(len >= 2);
            // take content (minus EndOfContent) and return i (after EndOfContent)
            let content = start_i.take(len - 2);
            Ok((i, content))
        }""", """        if !hdr.length().is_definite() {
            assert!(len >= 2);
            let content_len = len - 2;
            let content = start_i.take(content_len);
            return Ok((i, content));
        }
        Ok(start_i.take_split(len))"""))
r("skip-while", "src/ber/parser.rs",
  ("                let (i2, header2) = Header::parse_ber(i)?;\n                let header_len = i2.start() - start;\n                let (i3, eoc) = ber_skip_object_content(i2, &header2, max_depth - 1)?;\n",
   "                let (i2, header2) = Header::parse_ber(i)?;\n                let body_start = i2.start();\n                let header_len = body_start - start;\n                let next_depth = max_depth - 1;\n                let (i3, eoc) = ber_skip_object_content(i2, &header2, next_depth)?;\n"))
r("uint-loop", "src/asn1_types/integer.rs",
  ("    assert!(input.len() <= N);\n    output[N.saturating_sub(input.len())..].copy_from_slice(input);", "    let offset = N - input.len();\n    for (i, b) in input.iter().enumerate() {\n        output[offset + i] = *b;\n    }"))
r("uint-order", "src/asn1_types/integer.rs",
  ("    let input = trim_slice(bytes);\n\n    if input.len() > N {\n        return Err(Error::IntegerTooLarge);\n    }\n", "    let input = trim_slice(bytes);\n    let n = input.len();\n    if n > N {\n        return Err(Error::IntegerTooLarge);\n    }\n"))
r("hibit-match", "src/asn1_types/integer.rs",
  ("    bytes\n        .first()\n        .map(|byte| byte & 0b10000000 != 0)\n        .unwrap_or(false)", "    match bytes.first() {\n        Some(byte) => byte & 0x80 != 0,\n        None => false,\n    }"))
r("hibit-index", "src/asn1_types/integer.rs",
  ("    bytes\n        .first()\n        .map(|byte| byte & 0b10000000 != 0)\n        .unwrap_or(false)", "    !bytes.is_empty() && bytes[0] >= 0x80"))
r("trim-loop", "src/asn1_types/integer.rs",
  ("""    match bytes.iter().position(|&b| b != 0) {
        // first byte is not 0
        Some(0) => (),
        // all bytes are 0
        None => return &bytes[bytes.len() - 1..],
        Some(first) => return &bytes[first..],
    }
""", """    let mut first = 0;
    while first < bytes.len() && bytes[first] == 0 {
        first += 1;
    }
    if first == bytes.len() {
        return &bytes[bytes.len() - 1..];
    }
    if first > 0 {
        return &bytes[first..];
    }
"""))
r("octet-flip", "src/asn1_types/octetstring.rs",
  ("""        if !header.constructed() {
            let (rem, data) = input.take_split(input.len());
            Ok((
                rem,
                OctetString {
                    data: Cow::Borrowed(data.as_bytes2()),
                },
            ))
        } else {
            parse_ber_segmented(header, input, OCTETSTRING_MAX_RECURSION)
        }""", """        if header.constructed() {
            return parse_ber_segmented(header, input, OCTETSTRING_MAX_RECURSION);
        }
        let n = input.len();
        let (rem, data) = input.take_split(n);
        let data = Cow::Borrowed(data.as_bytes2());
        Ok((rem, OctetString { data }))"""))
r("seg-eoc-helper", "src/ber/appendable.rs",
  ("""            if !header.length.is_definite()
                && obj.header.tag() == Tag::EndOfContent
                && obj.header.is_universal()
                && obj.header.is_primitive()
                && obj.header.length().is_null()
            {
                break;
            }""", """            let at_end = obj.header.tag() == Tag::EndOfContent
                && obj.header.is_universal()
                && obj.header.is_primitive()
                && obj.header.length().is_null();
            if at_end && !header.length.is_definite() {
                break;
            }"""))
r("seg-loop", "src/ber/appendable.rs",
  ("""        for res in AnyIterator::<BerMode>::new(data) {
            let (_, obj) = res.map_err(Err::Error)?;
""", """        let mut it = AnyIterator::<BerMode>::new(data);
        while let Some(res) = it.next() {
            let (_, obj) = res.map_err(Err::Error)?;
"""))
r("opt-match", "src/asn1_types/optional.rs",
  ("        match T::from_ber(bytes) {\n            Ok((rem, t)) => Ok((rem, Some(t))),\n            Err(e) => Err(e),\n        }", "        let (rem, t) = T::from_ber(bytes)?;\n        Ok((rem, Some(t)))"))
r("opt-helper", "src/asn1_types/optional.rs",
  ("        if let Ok((_, header)) = Header::from_der(bytes) {\n            if !T::accept_tag(header.tag) {\n                // not the expected tag, early return\n                return Ok((bytes, None));\n            }\n        }", "        if other_tag_der::<T>(bytes) {\n            return Ok((bytes, None));\n        }"),
  ("impl<'a, T> FromDer<'a> for Option<T>", "fn other_tag_der<T: DynTagged>(bytes: &[u8]) -> bool {\n    match Header::from_der(bytes) {\n        Ok((_, header)) => !T::accept_tag(header.tag),\n        Err(_) => false,\n    }\n}\n\nimpl<'a, T> FromDer<'a> for Option<T>"))
r("opt-accept-if", "src/asn1_types/optional.rs",
  ("""        if !T::accept_tag(header.tag) {
            return Ok((input, None));
        }
        // note: `input` is the object content
        let (rem, obj) = T::from_ber_content(header, input)?;
        Ok((rem, Some(obj)))""", """        if T::accept_tag(header.tag) {
            T::from_ber_content(header, input).map(|(rem, obj)| (rem, Some(obj)))
        } else {
            Ok((input, None))
        }"""))


def run(repo, out):
    bad = []
    with cf.ThreadPoolExecutor(6) as ex:
        for u, j in [(u, ex.submit(verify.run_unit, repo, u, UNITS[u], out)) for u in UNITS]:
            x = j.result()
            for f in x.get("failed", []):
                bad.append((u, "FAIL", f["function"], f["obligation"][:100]))
            for d in x.get("undecided", []) or []:
                bad.append((u, "undecided", d["function"], str(d["why"])[:140]))
            if x["status"] not in ("ok", "proved", "failed"):
                bad.append((u, x["status"], str(x.get("reason", ""))[:200]))
    return bad


if __name__ == "__main__":
    ids = sys.argv[1:] or list(R)
    for id in ids:
        file, subs = R[id]
        d = "/tmp/rf/" + id
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        os.makedirs(d)
        for x in ("src", "impl", "derive", "Cargo.toml", "Cargo.lock", "examples", "tests", "doc", "README.md", "benches", ".cargo"):
            if os.path.isdir("/repo/" + x):
                shutil.copytree("/repo/" + x, d + "/" + x)
            elif os.path.exists("/repo/" + x):
                shutil.copy("/repo/" + x, d + "/" + x)
        p = d + "/" + file
        s = open(p).read()
        for a, b in subs:
            assert a in s, (id, a)
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
        c = subprocess.run(["cargo", "check", "--offline", "-q", "--target-dir", "/tmp/rf/target"], cwd=d, capture_output=True, text=True)
        print("==", id, "compiles" if c.returncode == 0 else "DOES NOT COMPILE\n" + c.stderr[:2000], flush=True)
        if c.returncode == 0:
            for b in run(d, "/tmp/rf/out"):
                print("  ", *b, flush=True)
        shutil.rmtree(d, ignore_errors=True)
