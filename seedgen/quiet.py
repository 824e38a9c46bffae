#!/usr/bin/env python3
"""quiet.py [ids]: behaviour-preserving edits; the proof of every root they touch must go through (or at
least not be refuted).  Works in scratch copies of /repo."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, P2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
C, UD, UQ, UF, B = 'src/collect.rs', 'src/util/decode.rs', 'src/util/query.rs', 'src/util/field.rs', 'src/byte.rs'
H1 = ['head', 'chunked', 'multipart', 'url']
EDITS = [
 ('ext-helper', ['chunked'], [
   (P, "fn chunk_extension_escaped_value(", "if context.byte > 0x1F && context.byte < 0x7B {", "if is_escapable(context.byte) {"),
   (P, None, "impl<'a, T: HttpHandler + 'a> Parser<'a, T> {", "fn is_escapable(byte: u8) -> bool {\n    byte > 0x1F && byte < 0x7B\n}\n\nimpl<'a, T: HttpHandler + 'a> Parser<'a, T> {")]),
 ('chunk-data-let', ['chunked'], [
   (P, "fn chunk_data(", "        if bs_available!(context) >= self.length {", "        let available = bs_available!(context);\n\n        if self.length <= available {"),
   (P, "fn chunk_data(", "        self.length -= bs_available!(context);\n\n        bs_collect_length!(context, bs_available!(context));", "        bs_collect_length!(context, available);\n\n        self.length -= available;")]),
 ('chunk-data-min', ['chunked'], [
   (P, "fn chunk_data(", "        if bs_available!(context) >= self.length {\n            // collect remaining chunk data\n            bs_collect_length!(context, self.length);\n\n            self.length = 0;\n", "        let take = std::cmp::min(bs_available!(context), self.length);\n\n        if take == self.length {\n            // collect remaining chunk data\n            bs_collect_length!(context, take);\n\n            self.length = 0;\n")]),
 ('reset-order', H1, [
   (P, "pub fn reset(", "        self.bit_data = 0;\n        self.boundary = None;\n        self.length   = 0;\n", "        self.length   = 0;\n        self.boundary = None;\n        self.bit_data = 0;\n        let _ = self.byte_count;\n")]),
 ('parse-while', H1, [
   (P, "fn parse(", "        loop {\n            match (self.state_function)(self, &mut handler, &mut context) {\n                Ok(ParserValue::Continue) => {\n                },", "        loop {\n            let value = (self.state_function)(self, &mut handler, &mut context);\n            match value {\n                Ok(ParserValue::Continue) => {\n                    continue;\n                },")]),
 ('parse-err-helper', H1, [
   (P, "fn parse(", "                    self.byte_count     += context.stream_index;\n                    self.state           = ParserState::Dead;\n                    self.state_function  = Parser::dead;\n\n                    return Err(error);", "                    return Err(self.die(context.stream_index, error));"),
   (P, None, "    /// Reset `Parser` to its initial state.", "    fn die(&mut self, count: usize, error: ParserError) -> ParserError {\n        self.state           = ParserState::Dead;\n        self.state_function  = Parser::dead;\n        self.byte_count     += count;\n        error\n    }\n\n    /// Reset `Parser` to its initial state.")]),
 ('upper-ascii', ['chunked', 'head', 'multipart'], [
   (P, "fn upper_chunk_extension_name(", "if context.byte > 0x40 && context.byte < 0x5B {", "if context.byte.is_ascii_uppercase() {"),
   (P, "fn upper_chunk_extension_name(", "&[context.byte + 0x20]", "&[context.byte.to_ascii_lowercase()]")]),
 ('upper-match', ['chunked'], [
   (P, "fn upper_chunk_extension_name(", "        if context.byte > 0x40 && context.byte < 0x5B {\n            callback_transition!(\n                self,\n                handler,\n                context,\n                on_chunk_extension_name,\n                &[context.byte + 0x20],\n                LowerChunkExtensionName,\n                lower_chunk_extension_name\n            );\n        }\n\n        bs_replay!(context);\n",
    "        match context.byte {\n            upper @ b'A'...b'Z' => {\n            callback_transition!(\n                self,\n                handler,\n                context,\n                on_chunk_extension_name,\n                &[upper | 0x20],\n                LowerChunkExtensionName,\n                lower_chunk_extension_name\n            );\n            },\n            _ => {\n        bs_replay!(context);\n            }\n        }\n")]),
 ('collect-while', H1 + ['field'], [
   (C, "macro_rules! consume_linear_space {", "                loop {\n                    bs_available!($context) > 0 || $on_eos;\n\n                    bs_next!($context);\n\n                    if !($context.byte == b' ' || $context.byte == b'\\t') {\n                        break;\n                    }\n                }", "                bs_next!($context);\n\n                while $context.byte == b' ' || $context.byte == b'\\t' {\n                    if bs_available!($context) == 0 {\n                        $on_eos;\n                    }\n\n                    bs_next!($context);\n                }")]),
 ('multipart-length-swap', ['multipart'], [
   (P, "fn multipart_data_by_length(", "            bs_collect_length!(context, self.length);\n\n            self.length = 0;", "            let length = self.length;\n            self.length = 0;\n            bs_collect_length!(context, length);")]),
 ('url-resume-if', ['url'], [
   (P, "pub fn resume(", "if self.length - length == 0 {", "if length == self.length {")]),
 ('noop', H1, [
   (P, "fn parse(", "        loop {", "        let _unused = 0;\n        loop {"),
   (P, "fn header_lf1(", "exit_if_eos!(self, context);", "let _ = context.stream_index;\n        exit_if_eos!(self, context);"),
   (P, "fn chunk_data(", "exit_if_eos!(self, context);", "let _unused = 1;\n        exit_if_eos!(self, context);"),
   (P, "fn url_encoded_name(", "{\n", "{\n        let _nothing = ();\n")]),
 ('byte-table-match', ['byte'] , [
   (B, "pub fn is_token(", None, None)]),
 ('h2-padding-let', ['h2'], [
   (P2, "fn frame_padding(", "        if bs_available!(context) >= payload_length!(self) as usize {\n            // consume remaining padding\n            bs_jump!(context, payload_length!(self) as usize);", "        let left = payload_length!(self) as usize;\n\n        if left <= bs_available!(context) {\n            // consume remaining padding\n            bs_jump!(context, left);"),
   (P2, "fn frame_padding(", "        dec_payload_length!(self, bs_available!(context) as u32);\n\n        bs_jump!(context, bs_available!(context));", "        let rest = bs_available!(context);\n\n        bs_jump!(context, rest);\n\n        dec_payload_length!(self, rest as u32);")]),
 ('h2-data-helper', ['h2'], [
   (P2, "fn data_pad_length(", "        self.bit_data32a |= get_u8!(context) as u32;\n\n        dec_payload_length!(self, 1);", "        self.take_pad_length(context);"),
   (P2, None, "    /// Retrieve the current state.", "    fn take_pad_length(&mut self, context: &mut ByteStream) {\n        self.bit_data32a |= get_u8!(context) as u32;\n\n        dec_payload_length!(self, 1);\n    }\n\n    /// Retrieve the current state.")]),
 ('h2-resume-match', ['h2'], [
   (P2, "pub fn resume(", "        loop {\n            match (self.state_function)(self, &mut handler, &mut context) {\n                Ok(ParserValue::Continue) => {\n                },", "        let mut calls = 0usize;\n        loop {\n            calls = calls.wrapping_add(1);\n            let value = (self.state_function)(self, &mut handler, &mut context);\n            match value {\n                Ok(ParserValue::Continue) => continue,")]),
 ('dec-if-let', ['decode'], [
   (UD, "pub fn decode", "        if context.byte == b'+' {\n            submit!(bytes, b\" \");\n        } else if", "        if b'+' == context.byte {\n            bytes.push(b' ');\n        } else if"),
   (UD, "pub fn decode", "                submit!(bytes, &[\n                    collect_hex8!(context, DecodeError::HexSequence)\n                ]);", "                let byte = collect_hex8!(context, DecodeError::HexSequence);\n\n                bytes.push(byte);")]),
 ('dec-hex-helper', ['decode'], [
   (UD, None, "pub fn decode", "fn hex(byte: u8) -> Option<u8> {\n    match byte {\n        b'0'...b'9' => Some(byte - b'0'),\n        b'A'...b'F' => Some(byte - b'A' + 10),\n        b'a'...b'f' => Some(byte - b'a' + 10),\n        _ => None\n    }\n}\n\npub fn decode"),
   (UD, "pub fn decode", "                submit!(bytes, &[\n                    collect_hex8!(context, DecodeError::HexSequence)\n                ]);", "                bs_next!(context);\n                let high = match hex(context.byte) {\n                    Some(x) => x,\n                    None => return Err(DecodeError::HexSequence(context.byte))\n                };\n                bs_next!(context);\n                let low = match hex(context.byte) {\n                    Some(x) => x,\n                    None => return Err(DecodeError::HexSequence(context.byte))\n                };\n\n                bytes.push((high << 4) | low);")]),
 ('qry-match-order', ['query'], [
   (UQ, "fn next", "                    b'+' => {\n                        self.value.push(b' ');\n                    },\n                      b'&'\n                    | b';' => {\n                        submit_name_value!(self, QueryError);\n                    },", "                      b'&'\n                    | b';' => {\n                        submit_name_value!(self, QueryError);\n                    },\n                    b'+' => {\n                        let space = b' ';\n                        self.value.push(space);\n                    },")]),
 ('qry-slice-if', ['query'], [
   (UQ, "fn next", "                        if bs_slice_length!(self.context) > 0 {\n                            self.value.extend_from_slice(bs_slice!(self.context));\n                        }", "                        self.value.extend_from_slice(bs_slice!(self.context));")]),
 ('fld-upper-fn', ['field'], [
   (UF, "fn next", "                byte if byte > 0x40 && byte < 0x5B => {\n                    self.name.push(self.context.byte + 0x20);", "                byte @ b'A'...b'Z' => {\n                    self.name.push(byte | 0x20);")]),
 ('fld-noop', ['field'], [
   (UF, "fn next", "        self.name.clear();\n        self.value.clear();\n", "        let _before = self.name.len();\n        self.value.clear();\n        self.name.clear();\n")]),
]

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from quiet_more import MORE
EDITS += MORE
from quiet_third import MORE as THIRD
EDITS += THIRD
from quiet_fourth import MORE as FOURTH
EDITS += FOURTH


def edit(repo, f, fn, old, new):
    p = os.path.join(repo, f)
    s = open(p).read()
    at = s.index(fn) if fn else 0
    if old is None:
        return
    if fn:
        m = re.compile(r"\n    (?:pub )?fn |\n}\n").search(s, at + len(fn))
        end = m.start() if m else len(s)
    else:
        end = len(s)
    body = s[at:end]
    assert old in body, (f, fn, old)
    open(p, "w").write(s[:at] + body.replace(old, new, 1) + s[end:])


def main():
    sys.path.insert(0, V + '/mirvc')
    from props import ROOTS
    want = sys.argv[1:]
    for i, roots, eds in EDITS:
        if want and i not in want:
            continue
        wt = "/tmp/qs_" + i
        subprocess.run("rm -rf %s; mkdir %s; cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s" % (wt, wt, wt), shell=True)
        try:
            for e in eds:
                edit(wt, *e)
        except AssertionError as e:
            print(i, 'NO MATCH', str(e)[:300])
            continue
        r = subprocess.run("cargo +nightly rustc --offline --lib -- -Zunpretty=mir -Zmir-opt-level=0 > lib.mir 2> err", shell=True, cwd=wt)
        if r.returncode:
            print(i, 'DOES NOT BUILD', re.findall(r"error.*\n.*", open(wt + '/err').read())[:3])
            continue
        ps = [(r, subprocess.Popen(['python3-vt', V + '/mirvc/' + ROOTS[r]['prover'], wt + '/lib.mir', r, '/tmp/q/%s-%s.json' % (i, r), '--budget', '270', '--repo', wt])) for r in roots]
        for r, p in ps:
            p.wait()
            d = json.load(open('/tmp/q/%s-%s.json' % (i, r)))
            print(i, r, d['status'], '%ss' % d.get('wall_s'), 'cooled %s' % d.get('cooled'), str([(f['cat'], f['msg'], f['where']) for f in d['fails'][:3]])[:400], str(d['tool'][:3])[:400], flush=True)
        subprocess.run(["rm", "-rf", wt])


main()
