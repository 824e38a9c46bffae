"""Behaviour-preserving edits, fourth set: the small types, and iterator / closure spellings."""
EC, FT, FL, FF, SE, B = ('src/http2/error_code.rs', 'src/http2/frame_type.rs', 'src/http2/flags.rs', 'src/http2/frame_format.rs', 'src/http2/setting.rs', 'src/byte.rs')
import re


def body(f, head, tail='\n    }\n'):
    s = open('/repo/' + f).read()
    i = s.index(head)
    return s[i:s.index(tail, i) + len(tail)]


ORDER = ['NoError', 'Protocol', 'Internal', 'FlowControl', 'SettingsTimeout', 'StreamClosed', 'FrameSize', 'RefusedStream', 'Cancel', 'Compression', 'Connect', 'EnhanceYourCalm', 'InadequateSecurity', 'Http11Required']


def table(f, ty):
    b = body(f, 'pub fn from_u8(')
    return re.findall(r'(\w+)\s*=> %s::(\w+)' % ty, b)


def ifs(f, ty):
    rows = [r for r in table(f, ty) if r[0] != '_']
    s = '    pub fn from_u8(byte: u8) -> %s {\n' % ty
    for i, (c, v) in enumerate(rows):
        s += '        %sif byte == %s {\n            %s::%s\n        }' % ('' if i == 0 else ' else ', c, ty, v) if False else '        if byte == %s {\n            return %s::%s;\n        }\n' % (c, ty, v)
    return s + '        %s::Unsupported\n    }\n' % ty


MORE = [
 ('codes-cast', ['codes'], [
   (EC, None, body(EC, '    pub fn as_byte('), '    pub fn as_byte(&self) -> u8 {\n        *self as u8\n    }\n'),
   (FT, None, body(FT, '    pub fn as_byte('), '    pub fn as_byte(&self) -> u8 {\n        *self as u8\n    }\n')]),
 ('codes-ifs', ['codes', 'h2'], [
   (EC, None, body(EC, '    pub fn from_u8('), ifs(EC, 'ErrorCode')),
   (FT, None, body(FT, '    pub fn from_u8('), ifs(FT, 'FrameType'))]),
 ('codes-table', ['codes'], [
   (EC, None, body(EC, '    pub fn from_u8('), '    pub fn from_u8(byte: u8) -> ErrorCode {\n        if (byte as usize) < CODES.len() {\n            CODES[byte as usize]\n        } else {\n            ErrorCode::Unsupported\n        }\n    }\n'),
   (EC, None, 'impl ErrorCode {\n', 'const CODES: [ErrorCode; 14] = [\n' + ''.join('    ErrorCode::%s,\n' % v for v in ORDER) + '];\n\nimpl ErrorCode {\n')]),
 ('codes-get', ['codes'], [
   (EC, None, body(EC, '    pub fn from_u8('), '    pub fn from_u8(byte: u8) -> ErrorCode {\n        match CODES.get(byte as usize) {\n            Some(code) => *code,\n            None => ErrorCode::Unsupported\n        }\n    }\n'),
   (EC, None, 'impl ErrorCode {\n', 'static CODES: [ErrorCode; 14] = [\n' + ''.join('    ErrorCode::%s,\n' % v for v in ORDER) + '];\n\nimpl ErrorCode {\n')]),
 ('codes-find', ['codes'], [
   (EC, None, body(EC, '    pub fn from_u8('), '    pub fn from_u8(byte: u8) -> ErrorCode {\n        for &(code, value) in CODES.iter() {\n            if code == byte {\n                return value;\n            }\n        }\n\n        ErrorCode::Unsupported\n    }\n'),
   (EC, None, 'impl ErrorCode {\n', 'const CODES: [(u8, ErrorCode); 14] = [\n' + ''.join('    (0x%x, ErrorCode::%s),\n' % (i, v) for i, v in enumerate(ORDER)) + '];\n\nimpl ErrorCode {\n')]),
 ('codes-eq', ['codes'], [
   (EC, None, body(EC, '    pub fn is_cancel('), '    pub fn is_cancel(&self) -> bool {\n        *self == ErrorCode::Cancel\n    }\n'),
   (EC, None, body(EC, '    pub fn is_connect('), '    pub fn is_connect(&self) -> bool {\n        self.as_byte() == E_CONNECT\n    }\n'),
   (EC, None, body(EC, '    pub fn is_internal('), '    pub fn is_internal(&self) -> bool {\n        matches!(*self, ErrorCode::Internal)\n    }\n'),
   (EC, None, body(EC, '    pub fn is_protocol('), '    pub fn is_protocol(&self) -> bool {\n        if let ErrorCode::Protocol = *self { true } else { false }\n    }\n')]),
 ('flags-helper', ['codes', 'h2'], [
   (FL, None, '    pub fn is_ack(&self) -> bool {\n        self.flags & FL_ACK == FL_ACK', '    /// Check a bit.\n    fn has(&self, bit: u8) -> bool {\n        (self.flags & bit) != 0\n    }\n\n    /// Indicates that the acknowledgement flag is set.\n    pub fn is_ack(&self) -> bool {\n        self.has(FL_ACK)'),
   (FL, None, '    pub fn is_padded(&self) -> bool {\n        self.flags & FL_PADDED == FL_PADDED', '    pub fn is_padded(&self) -> bool {\n        self.has(FL_PADDED)'),
   (FL, None, '    pub fn is_priority(&self) -> bool {\n        self.flags & FL_PRIORITY == FL_PRIORITY', '    pub fn is_priority(&self) -> bool {\n        (self.flags >> 5) & 1 == 1')]),
 ('flags-tuple', ['codes', 'h2'], [
   (FL, None, 'pub struct Flags {\n', 'pub struct Flags {\n    /// Spare.\n    spare: u16,\n\n'),
   (FL, None, '            flags: byte\n', '            spare: 0,\n            flags: byte\n')]),
 ('format-fields', ['codes'], [
   (FF, None, '(payload_length << 8) | frame_type as u32,', 'payload_length,\n            kind: frame_type,'),
   (FF, None, '    payload_length_frame_type: u32,\n', '    payload_length_frame_type: u32,\n\n    /// Frame type.\n    kind: u8,\n'),
   (FF, None, '(self.payload_length_frame_type & 0xFF) as u8', 'self.kind'),
   (FF, None, 'self.payload_length_frame_type >> 8', 'self.payload_length_frame_type & 0xFFFFFF')]),
 ('setting-ctor', ['codes', 'h2'], [
   (SE, None, body(SE, '    pub fn new('), '''    pub fn new(id: u16, value: u32) -> Setting {
        let make: fn(u32) -> Setting = match id {
            S_HEADER_TABLE_SIZE      => Setting::HeaderTableSize,
            S_ENABLE_PUSH            => Setting::EnablePush,
            S_MAX_CONCURRENT_STREAMS => Setting::MaxConcurrentStreams,
            S_INITIAL_WINDOW_SIZE    => Setting::InitialWindowSize,
            S_MAX_FRAME_SIZE         => Setting::MaxFrameSize,
            S_MAX_HEADER_LIST_SIZE   => Setting::MaxHeaderListSize,
            _                        => Setting::Unsupported
        };

        make(value)
    }
'''),
   (SE, None, body(SE, '    pub fn is_enable_push('), '    pub fn is_enable_push(&self) -> bool {\n        matches!(self, Setting::EnablePush(_))\n    }\n')]),
]

P, P2, Q, F, D, C = 'src/http1/parser.rs', 'src/http2/parser.rs', 'src/util/query.rs', 'src/util/field.rs', 'src/util/decode.rs', 'src/collect.rs'
H1 = ['head', 'chunked', 'multipart', 'url']
ADD = "    // ---------------------------------------------------------------------------------------------\n    // CHUNK STATES\n"


def whole(f, *subs):
    """edit of a whole file by regular expressions"""
    s = t = open('/repo/' + f).read()
    for a, b in subs:
        n = re.subn(a, b, t)
        assert n[1], a
        t = n[0]
    return (f, None, s, t)


def chunk_digit(n):
    return (P, 'fn chunk_length%d(' % n, '''        exit_if_eos!(self, context);
        bs_next!(context);

        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;

            transition!(
                self,
                context,
                ChunkLength%d,
                chunk_length%d
            );
        }

        bs_replay!(context);

        transition!(
            self,
            context,
            ChunkLengthCr,
            chunk_length_cr
        );
''' % (n + 1, n + 1), '        self.chunk_digit(context, ParserState::ChunkLength%d, Parser::chunk_length%d)\n' % (n + 1, n + 1))


MORE += [
 ('byte-ranges', ['byte', 'head', 'field'], [
   (B, None, '    HEADER_FIELDS[byte as usize]', "    byte == b'\\t' || (byte >= b' ' && byte != b'\"' && byte != 0x7F)"),
   (B, None, '    TOKENS[byte as usize]', "    match byte {\n        b'!' | b'#'..=b'\\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~' => true,\n        _ => byte.is_ascii_alphanumeric()\n    }")]),
 ('byte-iter', ['byte'], [
   (B, None, '    TOKENS[byte as usize]', "    byte.is_ascii_alphanumeric() || b\"!#$%&'*+-.^_`|~\".iter().any(|&b| b == byte)")]),
 ('byte-contains', ['byte'], [
   (B, None, '    TOKENS[byte as usize]', "    byte.is_ascii_alphanumeric() || b\"!#$%&'*+-.^_`|~\".contains(&byte)")]),
 ('chunk-digit-helper', ['chunked'], [chunk_digit(n) for n in range(2, 8)] + [
   (P, None, ADD, '''    /// Add a digit to the chunk length.
    fn chunk_digit(&mut self, context: &mut ByteStream, next: ParserState,
                   function: fn(&mut Parser<'a, T>, &mut T, &mut ByteStream) -> Result<ParserValue, ParserError>)
    -> Result<ParserValue, ParserError> {
        exit_if_eos!(self, context);
        bs_next!(context);

        if is_hex!(context.byte) {
            self.length = (self.length << 4) | hex_to_byte!(context.byte) as usize;
            self.state          = next;
            self.state_function = function;

            transition!(self, context);
        }

        bs_replay!(context);

        transition!(
            self,
            context,
            ChunkLengthCr,
            chunk_length_cr
        );
    }

''' + ADD)]),
 ('chunk-digit-invert', ['chunked'], [
   (P, 'fn chunk_length4(', '''        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;

            transition!(
                self,
                context,
                ChunkLength5,
                chunk_length5
            );
        }

        bs_replay!(context);

        transition!(
            self,
            context,
            ChunkLengthCr,
            chunk_length_cr
        );
''', '''        let byte = context.byte;

        if !is_hex!(byte) {
            bs_replay!(context);

            transition!(
                self,
                context,
                ChunkLengthCr,
                chunk_length_cr
            );
        }

        self.length = self.length * 16 + (byte as char).to_digit(16).unwrap() as usize;

        transition!(
            self,
            context,
            ChunkLength5,
            chunk_length5
        );
''')]),
 ('cr-no-fast', ['head', 'chunked', 'multipart'], [
   (P, 'fn header_cr1(', '''        unsafe {
            if bs_has_bytes!(context, 2) && bs_starts_with2!(context, b"\\r\\n") {
                bs_jump!(context, 2);

                transition!(
                    self,
                    context,
                    HeaderCr2,
                    header_cr2
                );
            }
        }

''', ''),
   (P, 'fn header_cr2(', '''        unsafe {
            if bs_has_bytes!(context, 2) && bs_starts_with2!(context, b"\\r\\n") {
                bs_jump!(context, 2);

                transition!(
                    self,
                    context,
                    HeaderEnd,
                    header_end
                );
            }
        }

''', '')]),
 ('crlf-helper', ['head', 'chunked', 'multipart'], [
   (P, 'fn header_lf1(', '''        if context.byte == b'\\n' {
            transition!(
                self,
                context,
                HeaderCr2,
                header_cr2
            );
        }

        Err(ParserError::CrlfSequence(context.byte))
''', '''        self.expect(context, b'\\n')?;

        transition!(
            self,
            context,
            HeaderCr2,
            header_cr2
        );
'''),
   (P, 'fn header_lf2(', '''        if context.byte == b'\\n' {
            transition!(
                self,
                context,
                HeaderEnd,
                header_end
            );
        }

        Err(ParserError::CrlfSequence(context.byte))
''', '''        self.expect(context, b'\\n')?;

        transition!(
            self,
            context,
            HeaderEnd,
            header_end
        );
'''),
   (P, None, ADD, '''    /// Check a byte of a line ending.
    fn expect(&self, context: &ByteStream, byte: u8) -> Result<(), ParserError> {
        if context.byte == byte {
            Ok(())
        } else {
            Err(ParserError::CrlfSequence(context.byte))
        }
    }

''' + ADD)]),
 ('upper-closure', ['head', 'chunked', 'multipart'], [
   (P, 'fn upper_header_name(', "        if context.byte > 0x40 && context.byte < 0x5B {\n            // upper-cased byte, let's lower-case it", "        let is_upper = |byte: u8| byte > 0x40 && byte < 0x5B;\n\n        if is_upper(context.byte) {"),
   (P, 'fn upper_header_name(', '&[context.byte + 0x20]', '&[context.byte.to_ascii_lowercase()]'),
   (P, 'fn upper_chunk_extension_name(', '&[context.byte + 0x20]', '&[context.byte | 0x20]'),
   (P, 'fn lower_header_name(', '        if context.byte > 0x40 && context.byte < 0x5B {\n            // upper', "        let byte = context.byte;\n\n        if (b'A'..=b'Z').contains(&byte) {\n            // upper"),
   ]),
 ('mp-take-min', ['multipart'], [
   (P, 'fn multipart_boundary(', '''            let slice =
                if boundary.len() - get_upper14!(self) as usize <= bs_available!(context) {
                    // compare remainder of boundary
                    &boundary[get_upper14!(self) as usize..]
                } else {
                    // compare remainder of stream
                    &boundary[
                        get_upper14!(self) as usize..
                        get_upper14!(self) as usize + bs_available!(context)
                    ]
                };
''', '''            let start = get_upper14!(self) as usize;
            let take  = ::std::cmp::min(boundary.len() - start, bs_available!(context));
            let slice = &boundary[start..start + take];
'''),
   (P, 'fn multipart_boundary(', 'get_upper14!(self) as usize + slice.len() == boundary.len())', 'start + take == boundary.len())'),
   (P, 'fn multipart_boundary(', '''                let mut v = Vec::with_capacity(// \\r\\n--
                                               4 as usize +

                                               // old boundary data
                                               get_upper14!(self) as usize);

                v.extend_from_slice(b"\\r\\n--");
                v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);
''', '''                let mut v = b"\\r\\n--".to_vec();

                v.extend(boundary[..start].iter());
''')]),
 ('mp-concat', ['multipart'], [
   (P, 'fn multipart_boundary(', '''                let mut v = Vec::with_capacity(// \\r\\n--
                                               4 as usize +

                                               // old boundary data
                                               get_upper14!(self) as usize);

                v.extend_from_slice(b"\\r\\n--");
                v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);
''', '''                let v = [b"\\r\\n--", &boundary[..get_upper14!(self) as usize]].concat();
''')]),
 ('mp-zip', ['multipart'], [
   (P, 'fn multipart_boundary(', 'if bs_starts_with!(context, slice) {', 'if slice.iter().zip(context.stream[context.stream_index..].iter()).all(|(a, b)| a == b) {')]),
 ('mp-position', ['multipart'], [
   (P, 'fn multipart_data_by_byte(', '''        bs_collect_until!(
            context,

            // collect bytes until
            context.byte == b'\\r',

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_multipart_data)
        );
''', '''        match context.stream[context.stream_index..].iter().position(|&byte| byte == b'\\r') {
            Some(length) => {
                bs_jump!(context, length);
                bs_next!(context);
            },
            None => {
                bs_jump!(context, bs_available!(context));
                callback_eos_expr!(self, handler, context, on_multipart_data);
            }
        }
''')]),
 ('mp-length-min', ['multipart'], [
   (P, 'fn multipart_data_by_length(', '''        // collect remaining stream data
        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));
''', '''        let available = bs_available!(context);

        bs_collect_length!(context, available);

        self.length = self.length.checked_sub(available).unwrap();
''')]),
 ('url-hex-fn', ['url'], [
   (P, 'fn url_encoded_name_hex2(', '''        set_lower14!(
            self,
            if is_digit!(context.byte) {
                context.byte - b'0'
            } else if b'@' < context.byte && context.byte < b'G' {
                context.byte - 0x37
            } else if b'`' < context.byte && context.byte < b'g' {
                context.byte - 0x57
            } else {
                exit_error!(UrlEncodedName, context.byte);
            }
        );
''', '''        let nibble = Self::nibble(context.byte).ok_or(ParserError::UrlEncodedName(context.byte))?;

        set_lower14!(self, nibble);
'''),
   (P, None, ADD, '''    /// Value of a hex digit.
    fn nibble(byte: u8) -> Option<u8> {
        match byte {
            b'0'..=b'9' => Some(byte - b'0'),
            b'a'..=b'f' => Some(byte - b'a' + 10),
            b'A'..=b'F' => Some(byte - b'A' + 10),
            _           => None
        }
    }

''' + ADD)]),
 ('h2-split-fields', ['h2'], [
   whole(P2, (r'\$parser\.bit_data32a = \(\$parser\.bit_data32a & 0xFF\)\n\s*\| \(\(\$parser\.bit_data32a >> 8\) - \$length\) << 8;', '$parser.payload_length -= $length;'),
         (r'\$parser\.bit_data32a & 0xFF > 0', 'pad_length!($parser) > 0'),
         (r'\$parser\.bit_data32a & 0xFF\n', '$parser.low as u32\n'),
         (r'\$parser\.bit_data32a >> 8', '$parser.payload_length'),
         (r'    bit_data32a: u32,\n', '    payload_length: u32,\n\n    low: u8,\n'),
         (r'Parser\{ bit_data32a:    0,', 'Parser{ payload_length: 0, low: 0,'),
         (r'self\.bit_data32a = 0;', 'self.payload_length = 0;\n        self.low = 0;'),
         (r'read_u32!\(context, self\.bit_data32a\);', 'let mut word = 0u32;\n            read_u32!(context, word);\n            self.payload_length = word >> 8;\n            self.low = word as u8;'),
         (r'self\.bit_data32a \|= \(get_u8!\(context\) as u32\) << 24;', 'self.payload_length = (get_u8!(context) as u32) << 16;'),
         (r'self\.bit_data32a \|= \(get_u8!\(context\) as u32\) << 16;', 'self.payload_length |= (get_u8!(context) as u32) << 8;'),
         (r'self\.bit_data32a \|= \(get_u8!\(context\) as u32\) << 8;', 'self.payload_length |= get_u8!(context) as u32;'),
         (r'self\.bit_data32a \|= get_u8!\(context\) as u32;', 'self.low = get_u8!(context);'),
         (r'\(self\.bit_data32a & 0xFF\) as u8', 'self.low'),
         (r'self\.bit_data32a &= 0xFFFFFF00;', 'self.low = 0;'))]),
 ('h2-weight-field', ['h2'], [
   (P2, 'fn headers_weight(', 'self.bit_data16a = (get_u8!(context) as u16) << 8;', 'self.bit_data16a = get_u8!(context) as u16;'),
   (P2, 'fn headers_callback(', '(self.bit_data16a >> 8) as u8', 'self.bit_data16a as u8'),
   (P2, 'fn headers_callback(', 'self.bit_data32b >> 31 == 1', 'self.bit_data32b & 0x8000_0000 != 0')]),
 ('h2-fast-word', ['h2'], [
   (P2, 'fn settings_id1(', '''            // read entire identifier
            read_u16!(context, self.bit_data16a);
''', '''            // read entire identifier
            let high = get_u8!(context) as u16;
            let low  = get_u8!(context) as u16;

            self.bit_data16a = high << 8 | low;
'''),
   (P2, 'fn window_update_increment1(', '            read_u32!(context, self.bit_data32b);\n', '            self.bit_data32b = context.stream[context.stream_index..context.stream_index + 4].iter().fold(0, |word, byte| word << 8 | *byte as u32);\n\n            bs_jump!(context, 4);\n')]),
 ('h2-no-fast', ['h2'], [
   (P2, 'fn settings_value1(', '''        if bs_available!(context) >= 4 {
            // read entire value
            read_u32!(context, self.bit_data32b);

            transition!(
                self,
                context,
                SettingsCallback,
                settings_callback
            );
        }

''', ''),
   (P2, 'fn headers_stream_id1(', '''        if bs_available!(context) >= 4 {
            // read exclusive bit and entire stream id
            read_u32!(context, self.bit_data32b);

            transition!(
                self,
                context,
                HeadersWeight,
                headers_weight
            );
        }

''', '')]),
 ('h2-short-fn', ['h2'], [
   whole(P2, (r'exit_if_short!\(self, (\d)\);', r'self.check_room(\1)?;'),
         (r'    #\[inline\]\n    fn headers_pad_length_with_priority', '    /// Check that the payload has room for what is left of the frame.\n    fn check_room(&self, length: u32) -> Result<(), ParserError> {\n        match payload_length!(self).checked_sub(pad_length!(self)) {\n            Some(room) if room >= length => Ok(()),\n            _ => Err(ParserError::Dead)\n        }\n    }\n\n    #[inline]\n    fn headers_pad_length_with_priority'))]),
 ('collect-hex-fn', ['decode', 'query', 'field'], [
   (C, 'macro_rules! collect_hex8 {', '''        (
            if is_digit!($context.byte) {
                ($context.byte - b'0') << 4
            } else if b'@' < $context.byte && $context.byte < b'G' {
                ($context.byte - 0x37) << 4
            } else if b'`' < $context.byte && $context.byte < b'g' {
                ($context.byte - 0x57) << 4
            } else {
                return Err($error($context.byte));
            } as u8
        )
''', '''        (
            match ($context.byte as char).to_digit(16) {
                Some(digit) => (digit as u8) << 4,
                None        => return Err($error($context.byte))
            }
        )
'''),
   (C, 'macro_rules! collect_hex8_iter {', '''            if is_digit!($context.byte) {
                ($context.byte - b'0') << 4
            } else if b'@' < $context.byte && $context.byte < b'G' {
                ($context.byte - 0x37) << 4
            } else if b'`' < $context.byte && $context.byte < b'g' {
                ($context.byte - 0x57) << 4
            } else {
                submit_error!($iter, $error);
            } as u8
''', '''            match $context.byte {
                byte @ b'0'..=b'9' => (byte - b'0') * 16,
                byte @ b'A'..=b'F' => (byte - b'A' + 10) * 16,
                byte @ b'a'..=b'f' => (byte - b'a' + 10) * 16,
                _ => { submit_error!($iter, $error); }
            }
''')]),
 ('dec-position', ['decode'], [
   (D, 'pub fn decode(', '''        collect_visible_7bit!(
            context,

            // stop on these bytes
               context.byte == b'+'
            || context.byte == b'%',

            // on end-of-stream
            {
                if context.mark_index < context.stream_index {
                    submit!(bytes, bs_slice!(context));
                }

                return match str::from_utf8(&bytes) {
                    Ok(string) => Ok(string.to_string()),
                    Err(error) => Err(DecodeError::Byte(bytes[error.valid_up_to()]))
                };
            }
        );
''', '''        let rest = &context.stream[context.stream_index..];

        match rest.iter().position(|&byte| !is_visible_7bit!(byte) || byte == b'+' || byte == b'%') {
            Some(length) => {
                bs_jump!(context, length);
                bs_next!(context);
            },
            None => {
                submit!(bytes, rest);

                return match str::from_utf8(&bytes) {
                    Ok(string) => Ok(string.to_string()),
                    Err(error) => Err(DecodeError::Byte(bytes[error.valid_up_to()]))
                };
            }
        }
''')]),
]
