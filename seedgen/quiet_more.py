P, P2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
C, FS, UD, UQ, UF, B, UM = 'src/collect.rs', 'src/fsm.rs', 'src/util/decode.rs', 'src/util/query.rs', 'src/util/field.rs', 'src/byte.rs', 'src/util/mod.rs'
H1 = ['head', 'chunked', 'multipart', 'url']

ADD = "    /// Main parser loop.\n"
def chunk(n):
    return (P, "fn chunk_length%d(" % n, "            self.length <<= 4;\n            self.length  |= hex_to_byte!(context.byte) as usize;", "            self.add_digit(context.byte);")

def urlhex(what, k, err):
    w = 'upper' if k == 1 else 'lower'
    sh = lambda e: '(%s) << 4' % e if k == 1 else e
    old = ("        set_%s14!(\n            self,\n            if is_digit!(context.byte) {\n                %s\n            } else if b'@' < context.byte && context.byte < b'G' {\n                %s\n"
           "            } else if b'`' < context.byte && context.byte < b'g' {\n                %s\n            } else {\n                exit_error!(%s, context.byte);\n            }\n        );\n"
           % (w, sh("context.byte - b'0'"), sh("context.byte - 0x37"), sh("context.byte - 0x57"), err))
    new = ("        let nibble = match hex_nibble(context.byte) {\n            Some(nibble) => nibble,\n            None => exit_error!(%s, context.byte)\n        };\n\n        set_%s14!(self, %s);\n" % (err, w, 'nibble << 4' if k == 1 else 'nibble'))
    return (P, "fn url_encoded_%s_hex%d(" % (what, k), old, new)

MORE = [
 ('chunk-digit-helper', ['chunked'], [chunk(n) for n in range(2, 9)] + [
   (P, None, ADD, "    /// Add one hexadecimal digit to the length.\n    fn add_digit(&mut self, byte: u8) {\n        self.length = self.length * 16 + hex_to_byte!(byte) as usize;\n    }\n\n" + ADD)]),
 ('chunk-one-branch', ['chunked'], [
   (P, "fn chunk_length8(", "        if is_hex!(context.byte) {\n            self.length <<= 4;\n            self.length  |= hex_to_byte!(context.byte) as usize;\n        } else {\n            bs_replay!(context);\n        }\n",
    "        if !is_hex!(context.byte) {\n            bs_replay!(context);\n        } else {\n            self.length = (self.length << 4) + (hex_to_byte!(context.byte) as usize);\n        }\n"),
   (P, "fn chunk_length_cr(", "        if context.byte == b'\\r' {\n            if self.length == 0 {", "        let length = self.length;\n\n        if context.byte == b'\\r' {\n            if length < 1 {")]),
 ('mp-starts-with', ['multipart'], [
   (P, "fn multipart_boundary(", "if bs_starts_with!(context, slice) {", "if context.stream[context.stream_index..].starts_with(slice) {")]),
 ('mp-slice-eq', ['multipart'], [
   (P, "fn multipart_boundary(", "if bs_starts_with!(context, slice) {", "if &context.stream[context.stream_index..context.stream_index + slice.len()] == slice {")]),
 ('mp-let-offset', ['multipart'], [
   (P, "fn multipart_boundary(", """            let slice =
                if boundary.len() - get_upper14!(self) as usize <= bs_available!(context) {
                    // compare remainder of boundary
                    &boundary[get_upper14!(self) as usize..]
                } else {
                    // compare remainder of stream
                    &boundary[
                        get_upper14!(self) as usize..
                        get_upper14!(self) as usize + bs_available!(context)
                    ]
                };
""", """            let offset = get_upper14!(self) as usize;
            let length = ::std::cmp::min(boundary.len() - offset, bs_available!(context));
            let slice  = &boundary[offset..offset + length];
"""),
   (P, "fn multipart_boundary(", "                (slice.len(),\n                 None,\n                 get_upper14!(self) as usize + slice.len() == boundary.len())", "                (length, None, offset + length == boundary.len())"),
   (P, "fn multipart_boundary(", "&boundary[..get_upper14!(self) as usize]", "&boundary[..offset]")]),
 ('mp-vec-literal', ['multipart'], [
   (P, "fn multipart_boundary(", "                let mut v = Vec::with_capacity(// \\r\\n--\n                                               4 as usize +\n\n                                               // old boundary data\n                                               get_upper14!(self) as usize);\n\n                v.extend_from_slice(b\"\\r\\n--\");\n",
    "                let mut v = b\"\\r\\n--\".to_vec();\n")]),
 ('mp-detect-match', ['multipart'], [
   (P, "fn multipart_detect_data(", """        if let Some(length) = handler.content_length() {
            self.length = length;

            // expect boundary after data
            set_lower14!(self, 1);

            transition!(
                self,
                context,
                MultipartDataByLength,
                multipart_data_by_length
            );
        }

        // do not expect boundary since it can be part of the data itself
        set_lower14!(self, 0);

        transition!(
            self,
            context,
            MultipartDataByByte,
            multipart_data_by_byte
        );
""", """        match handler.content_length() {
            None => {
                set_lower14!(self, 0);
                set_state!(self, MultipartDataByByte, multipart_data_by_byte);
            },
            Some(length) => {
                set_lower14!(self, 1);
                self.length = length;
                set_state!(self, MultipartDataByLength, multipart_data_by_length);
            }
        }

        transition!(self, context);
""")]),
 ('url-nibble-helper', ['url'], [urlhex('name', 1, 'UrlEncodedName'), urlhex('name', 2, 'UrlEncodedName'), urlhex('value', 1, 'UrlEncodedValue'), urlhex('value', 2, 'UrlEncodedValue'),
   (P, None, "/// HTTP 1.x parser.\npub struct", "fn hex_nibble(byte: u8) -> Option<u8> {\n    match byte {\n        b'0'...b'9' => Some(byte - b'0'),\n        b'A'...b'F' => Some(byte - 0x37),\n        b'a'...b'f' => Some(byte - 0x57),\n        _ => None\n    }\n}\n\n/// HTTP 1.x parser.\npub struct")]),
 ('url-sum', ['url'], [
   (P, "fn url_encoded_name_hex2(", "&[(get_upper14!(self) | get_lower14!(self)) as u8]", "&[get_upper14!(self) as u8 + get_lower14!(self) as u8]"),
   (P, "fn url_encoded_value_hex2(", "&[(get_upper14!(self) | get_lower14!(self)) as u8]", "&[(get_upper14!(self) + get_lower14!(self)) as u8]")]),
 ('url-first-if', ['url'], [
   (P, "fn first_url_encoded_name(", "        bs_available!(context) > 0 || exit_eos!(self, context);\n", "        if bs_available!(context) == 0 {\n            exit_eos!(self, context);\n        }\n"),
   (P, "fn first_url_encoded_name(", "        if handler.on_url_encoded_begin() {\n            transition!(\n                self,\n                context,\n                UrlEncodedName,\n                url_encoded_name\n            )\n        }\n\n        exit_callback!(self, context);", "        if !handler.on_url_encoded_begin() {\n            exit_callback!(self, context);\n        }\n\n        transition!(self, context);")]),
 ('url-limit-min', ['url'], [
   (P, "pub fn resume(", "            if self.length < stream.len() {\n                // amount of data to process is less than the stream length\n                stream = &stream[0..self.length];\n            }\n", "            let limit = ::std::cmp::min(self.length, stream.len());\n\n            stream = &stream[..limit];\n")]),
 ('head-name-match', ['head'], [
   (P, "fn first_header_name(", "                } else if bs_starts_with5!(context, b\"Host:\") {\n                    name!(b\"host\", 5);\n                } else if context.byte == b'U' {", "                } else if context.byte == b'H' {\n                    if bs_starts_with5!(context, b\"Host:\") {\n                        name!(b\"host\", 5);\n                    }\n                } else if context.byte == b'U' {")]),
 ('head-status-let', ['head'], [
   (P, "fn response_status_code1(", "            set_lower14!(self, (context.byte - b'0') as u32 * 100);\n\n            bs_next!(context);", "            let mut code = (context.byte - b'0') as u32 * 100;\n\n            bs_next!(context);"),
   (P, "fn response_status_code1(", "            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);", "            code += (context.byte - b'0') as u32 * 10;"),
   (P, "fn response_status_code1(", "            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);", "            set_lower14!(self, code + (context.byte - b'0') as u32);")]),
 ('head-detect-while', ['head'], [
   (P, "fn strip_detect(", """        if context.byte == b'\\r' || context.byte == b'\\n'
        || context.byte == b'\\t' || context.byte == b' ' {
            loop {
                bs_available!(context) > 0 || exit_eos!(self, context);

                bs_next!(context);

                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b'\\t' || context.byte == b' ' {
                    continue;
                }

                break;
            }
        }
""", """        while context.byte == b'\\r' || context.byte == b'\\n'
           || context.byte == b'\\t' || context.byte == b' ' {
            if bs_available!(context) == 0 {
                exit_eos!(self, context);
            }

            bs_next!(context);
        }
""")]),
 ('head-method-while', ['head'], [
   (P, "fn request_method(", """        bs_collect!(
            context,

            // break when non-upper-case is found
            if context.byte < 0x41 || context.byte > 0x5A {
                break;
            },

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_method)
        );
""", """        loop {
            if context.stream_index == context.stream.len() {
                callback_eos_expr!(self, handler, context, on_method);
            }

            context.byte = context.stream[context.stream_index];
            context.stream_index += 1;

            match context.byte {
                b'A'...b'Z' => {},
                _ => break
            }
        }
""")]),
 ('head-lower-match', ['head'], [
   (P, "fn lower_header_name(", """        if context.byte > 0x40 && context.byte < 0x5B {
            // upper-cased byte
            bs_replay!(context);

            callback_transition!(
                self,
                handler,
                context,
                on_header_name,
                UpperHeaderName,
                upper_header_name
            );
        } else if context.byte == b':' {
            callback_ignore_transition!(
                self,
                handler,
                context,
                on_header_name,
                StripHeaderValue,
                strip_header_value
            );
        }

        Err(ParserError::HeaderName(context.byte))
""", """        match context.byte {
            b':' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_header_name,
                    StripHeaderValue,
                    strip_header_value
                );
            },
            0x41...0x5A => {
                // upper-cased byte
                bs_replay!(context);

                callback_transition!(
                    self,
                    handler,
                    context,
                    on_header_name,
                    UpperHeaderName,
                    upper_header_name
                );
            },
            byte => Err(ParserError::HeaderName(byte))
        }
""")]),
 ('fsm-proceed', H1, [
   (FS, "macro_rules! callback_ignore_transition", """            if $handler.$callback(bs_slice_ignore!($context)) {
                transition!($parser, $context);
            }

            exit_callback!($parser, $context);
        }

        transition!($parser, $context);
""", """            let proceed = $handler.$callback(bs_slice_ignore!($context));

            if !proceed {
                exit_callback!($parser, $context);
            }
        }

        transition!($parser, $context);
""")]),
 ('fsm-state-after', H1, [
   (FS, "macro_rules! callback_transition", """        set_state!($parser, $state, $state_function);
        callback!($parser, $handler, $context, $callback, $data, {
            transition!($parser, $context);
        });
""", """        let proceed = $handler.$callback($data);

        set_state!($parser, $state, $state_function);

        if proceed {
            transition!($parser, $context);
        }

        exit_callback!($parser, $context);
""")]),
 ('collect-split', H1 + ['decode', 'query', 'field'], [
   (C, "macro_rules! collect_visible_7bit", "            if is_not_visible_7bit!($context.byte) || $stop {\n                break;\n            },", "            if is_not_visible_7bit!($context.byte) {\n                break;\n            } else if $stop {\n                break;\n            },"),
   (C, "macro_rules! collect_tokens", "            if !is_token($context.byte) || $stop {\n                break;\n            },", "            if $stop {\n                break;\n            } else if !is_token($context.byte) {\n                break;\n            },")]),
 ('h2-u32-loop', ['h2'], [
   (P2, "macro_rules! read_u32", """        $into |= ($context.stream[$context.stream_index] as u32) << 24;
        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;
        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;
        $into |= $context.stream[$context.stream_index + 3] as u32;

        bs_jump!($context, 4);
""", """        let mut value = 0u32;

        for n in 0..4 {
            value = (value << 8) | $context.stream[$context.stream_index + n] as u32;
        }

        $into |= value;

        bs_jump!($context, 4);
""")]),
 ('h2-u16-sum', ['h2'], [
   (P2, "macro_rules! read_u16", """        $into |= ($context.stream[$context.stream_index] as u16) << 8;
        $into |= $context.stream[$context.stream_index + 1] as u16;
""", """        $into |= $context.stream[$context.stream_index] as u16 * 256
               + $context.stream[$context.stream_index + 1] as u16;
""")]),
 ('h2-payload-min', ['h2'], [
   (P2, "macro_rules! parse_payload_data", """            bs_jump!($context, actual_length!($parser) as usize);

            dec_payload_length!($parser, actual_length!($parser));

            if $parser.bit_data32a & 0xFF > 0 {
                set_state!($parser, FramePadding, frame_padding);
            } else {
                set_state!($parser, FrameLength1, frame_length1);
            }
""", """            let length = actual_length!($parser);

            dec_payload_length!($parser, length);

            bs_jump!($context, length as usize);

            if pad_length!($parser) == 0 {
                set_state!($parser, FrameLength1, frame_length1);
            } else {
                set_state!($parser, FramePadding, frame_padding);
            }
""")]),
 ('h2-dec-helper', ['h2'], [
   (P2, "macro_rules! dec_payload_length", """        $parser.bit_data32a = ($parser.bit_data32a & 0xFF)
                            | (($parser.bit_data32a >> 8) - $length) << 8;
""", """        $parser.bit_data32a -= $length << 8;
""")]),
 ('h2-flag-ne', ['h2'], [
   (P2, "macro_rules! has_flag", "        $parser.bit_data16a as u8 & $flag == $flag\n", "        ($parser.bit_data16a & $flag as u16) != 0\n")]),
 ('dec-capacity', ['decode'], [
   (UD, "pub fn decode", "let mut bytes   = Vec::new();", "let mut bytes   = Vec::with_capacity(encoded.len());"),
   (UD, "pub fn decode", "                return match str::from_utf8(&bytes) {\n                    Ok(string) => Ok(string.to_string()),\n                    Err(error) => Err(DecodeError::Byte(bytes[error.valid_up_to()]))\n                };",
    "                return match String::from_utf8(bytes) {\n                    Ok(string) => Ok(string),\n                    Err(error) => {\n                        let index = error.utf8_error().valid_up_to();\n\n                        Err(DecodeError::Byte(error.into_bytes()[index]))\n                    }\n                };"),
   (UD, None, "use std::str;\n", "")]),
 ('dec-short-if', ['decode'], [
   (UD, "pub fn decode", """            if bs_has_bytes!(context, 2) {
                submit!(bytes, &[
                    collect_hex8!(context, DecodeError::HexSequence)
                ]);
            } else {
                if bs_has_bytes!(context, 1) {
                    bs_next!(context);
                }

                return Err(DecodeError::HexSequence(context.byte));
            }
""", """            if bs_available!(context) < 2 {
                if bs_available!(context) == 1 {
                    bs_next!(context);
                }

                return Err(DecodeError::HexSequence(context.byte));
            }

            let byte = collect_hex8!(context, DecodeError::HexSequence);

            bytes.push(byte);
"""),
  ]),
 ('dec-match', ['decode'], [
   (UD, "pub fn decode", "        if context.byte == b'+' {\n            submit!(bytes, b\" \");\n        } else if context.byte == b'%' {", "        if context.byte != b'+' && context.byte != b'%' {\n            return Err(DecodeError::Byte(context.byte));\n        }\n\n        if context.byte == b'+' {\n            bytes.push(0x20);\n        } else if context.byte == b'%' {")]),
 ('utf8-owned', ['query', 'field'], [
   (UM, "macro_rules! submit_string", "            Ok(s) => s.to_string(),", "            Ok(s) => String::from(s),")]),
 ('utf8-to-owned', ['query', 'field'], [
   (UM, "macro_rules! submit_string", "            Ok(s) => s.to_string(),", "            Ok(s) => s.to_owned(),")]),
 ('qry-value-let', ['query'], [
   (UQ, "fn next", "                        self.value.push(b' ');", "                        let space = b' ';\n\n                        self.value.push(space);"),
   (UQ, "fn next", "        self.name.clear();\n        self.value.clear();\n", "        self.name  = Vec::new();\n        self.value.truncate(0);\n")]),
 ('qry-first', ['query'], [
   (UQ, "fn next", """                    b'=' => {
                        if self.context.stream_index == 1 {
                            // first byte cannot be an equal sign
                            submit_error!(self, QueryError::Name);
                        }

                        break;
                    },
                    _ if self.context.stream_index == 1 => {
                        // first byte cannot be a delimiter
                        submit_error!(self, QueryError::Name);
                    },
""", """                    b'=' if self.context.stream_index > 1 => {
                        break;
                    },
                    _ if self.context.stream_index <= 1 => {
                        // first byte cannot be a delimiter
                        submit_error!(self, QueryError::Name);
                    },
""")]),
 ('qry-extend', ['query'], [
   (UQ, "fn next", "                if bs_slice_length!(self.context) > 1 {\n                    self.name.extend_from_slice(bs_slice_ignore!(self.context));\n                }\n", "                self.name.extend_from_slice(\n                    &self.context.stream[self.context.mark_index..self.context.stream_index - 1]\n                );\n")]),
 ('fld-upper-range', ['field'], [
   (UF, "fn next", "self.name.push(self.context.byte + 0x20);", "self.name.push(self.context.byte | 0x20);"),
   (UF, "fn next", "byte if byte > 0x40 && byte < 0x5B => {", "b'A'...b'Z' => {")]),
 ('fld-value-local', ['field'], [
   (UF, "fn next", "                            submit_name_value!(self, FieldError, bs_slice_ignore!(self.context));", "                            self.value.extend_from_slice(bs_slice_ignore!(self.context));\n\n                            submit_name_value!(self, FieldError);")]),
 ('fld-early-eos', ['field'], [
   (UF, "fn next", """                                if bs_is_eos!(self.context) {
                                    submit_error!(self, FieldError::Value);
                                }

                                self.value.extend_from_slice(bs_slice_ignore!(self.context));

                                bs_next!(self.context);
""", """                                self.value.extend_from_slice(bs_slice_ignore!(self.context));

                                if bs_available!(self.context) == 0 {
                                    submit_error!(self, FieldError::Value);
                                }

                                bs_next!(self.context);
""")]),
]
