//! Every function exercises library functions whose contracts the verifier assumes.  The verifier's
//! interpreter and the compiled code must agree on all of them (selftest.py).
#![allow(dead_code, clippy::all, arithmetic_overflow)]
pub enum E { A(u8), B }
fn num(e: E) -> u64 { match e { E::A(x) => 1000 + x as u64, E::B => 2000 } }
fn hx(b: u8) -> Result<u8, E> { match b { b'0'..=b'9' => Ok(b - 48), 0x80..=0xFF => Err(E::B), _ => Err(E::A(b)) } }
fn q(b: u8) -> Result<u8, E> { let a = hx(b)?; Ok(a + 1) }
fn o(b: &[u8]) -> Option<u8> { let a = b.first()?; Some(*a) }
fn res(r: Result<u8, E>) -> u64 { match r { Ok(x) => x as u64, Err(e) => num(e) } }
fn opt(r: Option<u8>) -> u64 { match r { Some(x) => x as u64, None => 3000 } }
fn sum(v: &[u8], n: usize) -> u64 { let mut t = v.len() as u64; for i in 0..n { t = t * 7 + if i < v.len() { v[i] as u64 } else { 0 }; } t }

pub fn t_question(a: u8, b: u8, c: u32) -> u64 { res(q(a)) + res(q(b)) + c as u64 }
pub fn t_question_opt(a: u8, b: u8, _c: u32) -> u64 { opt(o(&[a, b])) + opt(o(&[])) }
pub fn t_be(a: u8, b: u8, _c: u32) -> u64 { u32::from_be_bytes([a, b, 7, b]) as u64 }
pub fn t_be16(a: u8, b: u8, _c: u32) -> u64 { u16::from_be_bytes([a, b]) as u64 }
pub fn t_le(a: u8, b: u8, _c: u32) -> u64 { u32::from_le_bytes([a, b, 7, b]) as u64 }
pub fn t_ri_contains(a: u8, b: u8, _c: u32) -> u64 { (b'a'..=b'z').contains(&a) as u64 * 2 + (b'0'..=b).contains(&a) as u64 }
pub fn t_r_contains(a: u8, b: u8, _c: u32) -> u64 { (0x20..0x7f).contains(&a) as u64 * 2 + (b..77).contains(&a) as u64 }
pub fn t_to_digit(a: u8, b: u8, _c: u32) -> u64 { let x = match (a as char).to_digit(16) { Some(x) => x as u64, None => 99 }; x + match (b as char).to_digit(10) { Some(x) => x as u64 * 100, None => 9900 } }
pub fn t_char(a: u8, b: u8, _c: u32) -> u64 { (a as char).is_digit(16) as u64 + 2 * char::from(b).is_ascii_digit() as u64 + 4 * a.is_ascii_graphic() as u64 + 8 * b.is_ascii() as u64 + 16 * a.is_ascii_control() as u64 }
pub fn t_ascii(a: u8, b: u8, _c: u32) -> u64 { a.is_ascii_digit() as u64 + 2 * b.is_ascii_uppercase() as u64 + 4 * a.is_ascii_lowercase() as u64 + 8 * b.is_ascii_hexdigit() as u64 + 16 * a.is_ascii_alphabetic() as u64 + 32 * a.is_ascii_alphanumeric() as u64 }
pub fn t_case(a: u8, b: u8, _c: u32) -> u64 { a.to_ascii_lowercase() as u64 * 256 + b.to_ascii_uppercase() as u64 }
pub fn t_iter(a: u8, b: u8, c: u32) -> u64 { let v = [a, b, 3]; let mut n = c as u64; for x in v.iter() { n = n * 5 + *x as u64; } for x in v.iter().cloned() { n ^= x as u64; } n }
pub fn t_into_iter(a: u8, b: u8, c: u32) -> u64 { let v = [a, b, 3]; let w: &[u8] = &v; let mut n = c as u64; for x in w { n = n * 5 + *x as u64; } n }
pub fn t_range_incl(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3, 9]; let mut n = 0; for i in 1..=3 { n = n * 5 + v[i] as u64; } n }
pub fn t_range(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3, 9]; let mut n = 0; for i in 1..3 { n = n * 5 + v[i] as u64; } n }
pub fn t_while(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3, 9]; let mut n = 0u32; let mut i = 0; while i < 4 { n = (n << 8) | v[i] as u32; i += 1; } n as u64 }
pub fn t_replace(a: u8, b: u8, c: u32) -> u64 { let mut x = c; let mut y = a as u32; let z = std::mem::replace(&mut x, b as u32); std::mem::swap(&mut x, &mut y); let w = std::mem::take(&mut y); x as u64 + 3 * y as u64 + 5 * z as u64 + 7 * w as u64 }
pub fn t_take(a: u8, b: u8, _c: u32) -> u64 { let mut x = if a < 9 { Some(b) } else { None }; let y = x.take(); opt(x) + 2 * opt(y) }
pub fn t_ok_or(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b) } else { None }; res(x.ok_or(E::B)) }
pub fn t_map(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b / 2) } else { None }; opt(x.map(|x| x + 1)) }
pub fn t_map_err(a: u8, b: u8, _c: u32) -> u64 { let x: Result<u8, u8> = if a < 99 { Ok(b / 2) } else { Err(a) }; res(x.map_err(E::A)) }
pub fn t_map_or(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b / 2) } else { None }; x.map_or(5, |x| x as u64 + 1) }
pub fn t_and_then(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b / 2) } else { None }; opt(x.and_then(|x| if x > 5 { Some(x) } else { None })) }
pub fn t_unwrap_or(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b / 2) } else { None }; x.unwrap_or(3) as u64 + x.unwrap_or_else(|| 4) as u64 * 10 + x.is_some() as u64 * 10000 + x.is_none() as u64 * 20000 }
pub fn t_ok_or_else(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b / 2) } else { None }; res(x.ok_or_else(|| E::A(a))) }
pub fn t_result(a: u8, b: u8, _c: u32) -> u64 { let x = hx(a); x.is_ok() as u64 + 2 * x.is_err() as u64 + 10 * opt(x.ok()) + hx(b).unwrap_or(77) as u64 * 100000 }
pub fn t_unwrap(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b / 2) } else { None }; x.unwrap() as u64 }
pub fn t_expect(a: u8, _b: u8, _c: u32) -> u64 { let x: Result<u8, u8> = if a < 99 { Ok(3) } else { Err(4) }; x.unwrap() as u64 }
pub fn t_vec(a: u8, b: u8, _c: u32) -> u64 { let mut v = Vec::with_capacity(3); v.push(a); v.extend_from_slice(&[b, 4]); v.push(b); sum(&v, 5) }
pub fn t_to_vec(a: u8, b: u8, _c: u32) -> u64 { let w = [a, b]; let mut v = w.to_vec(); v.push(1); v.extend(&w); v.extend(w.iter()); sum(&v, 8) + v.is_empty() as u64 }
pub fn t_vec_clear(a: u8, b: u8, _c: u32) -> u64 { let mut v = vec_of(a); v.clear(); v.push(b); let x = sum(&v, 3); v.truncate(0); v.reserve(10); x + 3 * v.len() as u64 + v.is_empty() as u64 }
fn vec_of(a: u8) -> Vec<u8> { let mut v = Vec::new(); v.push(a); v.push(a); v }
pub fn t_vec_index(a: u8, b: u8, _c: u32) -> u64 { let mut v = Vec::new(); v.push(a); v.push(b); v[1] as u64 * 256 + v[..1][0] as u64 }
pub fn t_vec_index_out(a: u8, b: u8, _c: u32) -> u64 { let mut v = Vec::new(); v.push(a); v.push(b); v[(a & 3) as usize] as u64 }
pub fn t_split_at(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; let (x, y) = v.split_at((a & 7) as usize); sum(x, 0) + 100 * sum(y, 0) }
pub fn t_slices(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; let i = (a & 3) as usize; let j = (b & 3) as usize; let x = &v[i..j]; let y = &v[i..]; let z = &v[..j]; x.len() as u64 + 10 * y.len() as u64 + 100 * z.len() as u64 }
pub fn t_get(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; match v.get((a & 7) as usize) { Some(x) => *x as u64, None => 777 } }
pub fn t_first_last(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; let w = &v[..(a & 3) as usize]; let x = match w.first() { Some(x) => *x as u64, None => 300 }; let y = match w.last() { Some(x) => *x as u64, None => 400 }; x + 1000 * y }
pub fn t_starts(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; v.starts_with(b"GE") as u64 + 2 * v.starts_with(&[a]) as u64 + 4 * v.ends_with(&[b, 3]) as u64 + 8 * v.ends_with(b"G\x03") as u64 + 16 * v.starts_with(b"1234") as u64 }
pub fn t_eq(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b]; let w: &[u8] = &v; (w == b"GE") as u64 + 2 * (&v[..1] == b"G") as u64 + 4 * (w != &[b, a][..]) as u64 + 8 * w.is_empty() as u64 }
pub fn t_min(a: u8, b: u8, c: u32) -> u64 { std::cmp::min(a, b) as u64 + 1000 * std::cmp::max(a, b) as u64 + 1000000 * std::cmp::min(c, 7) as u64 + 100000000 * (a as usize).max(b as usize) as u64 }
pub fn t_wrap(a: u8, b: u8, c: u32) -> u64 { a.wrapping_add(b) as u64 + 1000 * a.wrapping_sub(b) as u64 + c.wrapping_add(9) as u64 * 1000000 }
pub fn t_checked(a: u8, b: u8, c: u32) -> u64 { let x = opt(a.checked_add(b)); let y = opt(a.checked_sub(b)); let z = match c.checked_mul(3) { Some(x) => x as u64, None => 5 }; x + 10000 * y + 100000000 * z }
pub fn t_saturating(a: u8, b: u8, c: u32) -> u64 { a.saturating_sub(b) as u64 + 1000 * a.saturating_add(b) as u64 + c.saturating_add(5) as u64 * 1000000 }
pub fn t_add_panic(a: u8, b: u8, _c: u32) -> u64 { (a + b) as u64 }
pub fn t_sub_panic(a: u8, b: u8, _c: u32) -> u64 { (a - b) as u64 }
pub fn t_mul_panic(a: u8, _b: u8, c: u32) -> u64 { (c * 16 + a as u32) as u64 }
pub fn t_shl(a: u8, b: u8, c: u32) -> u64 { ((a as u32) << 3) as u64 + (c >> 7) as u64 + ((a << 2) as u64 ^ (b >> 3) as u64) }
pub fn t_shl_panic(a: u8, b: u8, c: u32) -> u64 { (c << (b & 63)) as u64 + a as u64 }
pub fn t_div(a: u8, b: u8, c: u32) -> u64 { (a / 10 * 16 + a % 10) as u64 + (c / 1000) as u64 + (b & 0xF | 0x30) as u64 }
pub fn t_casts(a: u8, b: u8, c: u32) -> u64 { c as u8 as u64 + 1000 * (c as u16 as u64) + (a as i8 as i32 as u32 as u64) * 100000 + (!b) as u64 + (a > b) as u64 }
pub fn t_cmp(a: u8, b: u8, c: u32) -> u64 { (a < b) as u64 + 2 * (a <= b) as u64 + 4 * (a == b) as u64 + 8 * (a != b) as u64 + 16 * (c >= 77) as u64 + 32 * ((a as i8) < (b as i8)) as u64 }
pub fn t_from(a: u8, b: u8, _c: u32) -> u64 { u32::from(a) as u64 + u64::from(b) * 256 + { let x: u16 = b.into(); x as u64 } }
pub fn t_match(a: u8, b: u8, _c: u32) -> u64 { match a { b'%' => 1, b'a'..=b'f' | b'A'..=b'F' => 2, x if x == b => 3, 0 => 4, _ => 5 } }
pub fn t_str(a: u8, _b: u8, _c: u32) -> u64 { let s: &[u8] = if a < 5 { b"abc" } else { b"defgh" }; s.len() as u64 * 1000 + s[2] as u64 }
pub fn t_pow(a: u8, _b: u8, _c: u32) -> u64 { 2u64.pow(10) + a as u64 }
pub fn t_nested(a: u8, b: u8, _c: u32) -> u64 { let mut v = [0u8; 4]; v[1] = a; v[(b & 3) as usize] ^= 5; sum(&v, 4) }
pub fn t_position(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3, 7]; let x = match v.iter().position(|&x| x == 3) { Some(x) => x as u64, None => 77 }; x + 100 * match v.iter().position(|x| *x > 200) { Some(x) => x as u64, None => 77 } }
pub fn t_any_all(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b]; v.iter().any(|x| *x < 48) as u64 + 2 * v.iter().all(|x| x.is_ascii_digit()) as u64 + 4 * [1u8, 2, 33].iter().any(|&x| x == a) as u64 + 8 * (0..3usize).all(|i| i as u8 != b) as u64 }
pub fn t_find(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 9]; match v.iter().find(|&&x| x < 40) { Some(x) => *x as u64, None => 600 } }
pub fn t_fold(a: u8, b: u8, c: u32) -> u64 { [a, b, 9].iter().fold(c as u64, |n, x| n * 3 + *x as u64) }
pub fn t_for_each(a: u8, b: u8, c: u32) -> u64 { let mut n = c as u64; [a, b, 9].iter().for_each(|x| n = n * 3 + *x as u64); n }
pub fn t_take_while(a: u8, b: u8, _c: u32) -> u64 { [a, b, 9].iter().take_while(|x| **x < 100).count() as u64 }
pub fn t_enumerate(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 9]; let mut n = 0; for (i, x) in v.iter().enumerate() { if *x > 50 { n += i as u64 * 10 + *x as u64; } } n }
pub fn t_rev(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 9]; let mut n = 0; for x in v.iter().rev() { n = n * 3 + *x as u64; } for i in (0..3usize).rev() { n = n * 5 + v[i] as u64; } n }
pub fn t_zip(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 9]; let w = b"G\x01"; v.iter().zip(w.iter()).all(|(x, y)| x == y) as u64 + 2 * v.iter().zip(w).any(|(x, y)| x > y) as u64 }
pub fn t_skip_take(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 9, 4]; let mut n = 0; for x in v.iter().skip(1).take(2) { n = n * 256 + *x as u64; } n }
fn apply1<F: Fn(u8) -> u8>(f: F, x: u8) -> u8 { f(x) }
fn apply2<F: FnMut(u8)>(mut f: F, x: u8) { f(x); f(x / 2); }
fn apply3(f: fn(u8) -> u64, x: u8) -> u64 { f(x) }
fn apply4(f: &dyn Fn(u8) -> u8, x: u8) -> u8 { f(x) }
fn half(x: u8) -> u8 { x / 2 }
pub fn t_closures(a: u8, b: u8, _c: u32) -> u64 { let mut n = 1; apply2(|x| n = n * 300 + x as u64, a); n + apply1(|x| x ^ b, a) as u64 * 3 + apply1(half, b) as u64 + apply3(u64::from, a) * 7 + apply4(&|x| x & b, a) as u64 }
pub fn t_map_from(a: u8, b: u8, _c: u32) -> u64 { let x = if a < 99 { Some(b) } else { None }; match x.map(u64::from) { Some(x) => x, None => 999 } }
pub fn t_move_mut(a: u8, b: u8, _c: u32) -> u64 { let mut k = a as u64; let mut f = move |x: u8| { k = k * 2 + x as u64; k }; f(b) + f(1) * 3 + k }
pub fn t_slice_get(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; let i = (a & 3) as usize; let j = (b & 7) as usize; let x = match v.get(i..j) { Some(x) => sum(x, 0), None => 70 }; let y = match v.get(j..) { Some(x) => sum(x, 0), None => 80 }; let z = match v.get(..j) { Some(x) => sum(x, 0), None => 90 }; x + 100 * y + 10000 * z }
pub fn t_split_first(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; let w = &v[..(a & 3) as usize]; let x = match w.split_first() { Some((h, t)) => *h as u64 + 1000 * t.len() as u64, None => 9999 }; let y = match w.split_last() { Some((h, t)) => *h as u64 + 1000 * t.len() as u64, None => 9999 }; x + 100000 * y }
pub fn t_contains(a: u8, b: u8, _c: u32) -> u64 { [b, 3, 9].contains(&a) as u64 + 2 * b"abc%".contains(&a) as u64 }
pub fn t_slice_pat(a: u8, b: u8, _c: u32) -> u64 { let v = [a, b, 3]; let w = &v[..(a & 3) as usize]; match w { [] => 1, [x] => 2 + *x as u64, [b'c', rest @ ..] => 300 + rest.len() as u64, [x, .., y] => 1000 + *x as u64 * 256 + *y as u64 } }
pub fn t_tuple_match(a: u8, b: u8, _c: u32) -> u64 { match (a, b > 9) { (0, _) => 1, (x, true) if x < 50 => 2, (b'a'..=b'z', false) => 3, (_, true) => 4, _ => 5 } }
pub fn t_matches(a: u8, b: u8, _c: u32) -> u64 { matches!(a, b'0'..=b'9' | b'-') as u64 + 2 * matches!((a, b), (1, 2) | (3, _)) as u64 }
pub fn t_eq_ignore(a: u8, b: u8, _c: u32) -> u64 { [a, b].eq_ignore_ascii_case(b"aG") as u64 + 2 * a.eq_ignore_ascii_case(&b) as u64 }
pub fn t_array_iter(a: u8, b: u8, _c: u32) -> u64 { let mut n = 0; for x in [a, b, 4] { n = n * 3 + x as u64; } for &x in &[b, a] { n = n * 3 + x as u64; } n }
pub fn t_label(a: u8, b: u8, _c: u32) -> u64 { let r = 'o: loop { let mut i = 0u64; while i < 4 { if i as u8 == a { break 'o i + 10; } i += 1; } break 7; }; r + b as u64 }
pub fn t_let_else(a: u8, b: u8, _c: u32) -> u64 { let Some(x) = a.checked_sub(b) else { return 5000 }; if let Ok(y) = hx(x) { y as u64 } else { 6000 } }
