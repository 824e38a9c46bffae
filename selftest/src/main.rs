use selftest::*;
use std::io::BufRead;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let fns: Vec<(&str, fn(u8, u8, u32) -> u64)> = vec![
        ("t_question", t_question),
        ("t_question_opt", t_question_opt),
        ("t_be", t_be),
        ("t_be16", t_be16),
        ("t_le", t_le),
        ("t_ri_contains", t_ri_contains),
        ("t_r_contains", t_r_contains),
        ("t_to_digit", t_to_digit),
        ("t_char", t_char),
        ("t_ascii", t_ascii),
        ("t_case", t_case),
        ("t_iter", t_iter),
        ("t_into_iter", t_into_iter),
        ("t_range_incl", t_range_incl),
        ("t_range", t_range),
        ("t_while", t_while),
        ("t_replace", t_replace),
        ("t_take", t_take),
        ("t_ok_or", t_ok_or),
        ("t_map", t_map),
        ("t_map_err", t_map_err),
        ("t_map_or", t_map_or),
        ("t_and_then", t_and_then),
        ("t_unwrap_or", t_unwrap_or),
        ("t_ok_or_else", t_ok_or_else),
        ("t_result", t_result),
        ("t_unwrap", t_unwrap),
        ("t_expect", t_expect),
        ("t_vec", t_vec),
        ("t_to_vec", t_to_vec),
        ("t_vec_clear", t_vec_clear),
        ("t_vec_index", t_vec_index),
        ("t_vec_index_out", t_vec_index_out),
        ("t_split_at", t_split_at),
        ("t_slices", t_slices),
        ("t_get", t_get),
        ("t_first_last", t_first_last),
        ("t_starts", t_starts),
        ("t_eq", t_eq),
        ("t_min", t_min),
        ("t_wrap", t_wrap),
        ("t_checked", t_checked),
        ("t_saturating", t_saturating),
        ("t_add_panic", t_add_panic),
        ("t_sub_panic", t_sub_panic),
        ("t_mul_panic", t_mul_panic),
        ("t_shl", t_shl),
        ("t_shl_panic", t_shl_panic),
        ("t_div", t_div),
        ("t_casts", t_casts),
        ("t_cmp", t_cmp),
        ("t_from", t_from),
        ("t_match", t_match),
        ("t_str", t_str),
        ("t_pow", t_pow),
        ("t_nested", t_nested),
        ("t_position", t_position),
        ("t_any_all", t_any_all),
        ("t_find", t_find),
        ("t_fold", t_fold),
        ("t_for_each", t_for_each),
        ("t_take_while", t_take_while),
        ("t_enumerate", t_enumerate),
        ("t_rev", t_rev),
        ("t_zip", t_zip),
        ("t_skip_take", t_skip_take),
        ("t_closures", t_closures),
        ("t_map_from", t_map_from),
        ("t_move_mut", t_move_mut),
        ("t_slice_get", t_slice_get),
        ("t_split_first", t_split_first),
        ("t_contains", t_contains),
        ("t_slice_pat", t_slice_pat),
        ("t_tuple_match", t_tuple_match),
        ("t_matches", t_matches),
        ("t_eq_ignore", t_eq_ignore),
        ("t_array_iter", t_array_iter),
        ("t_label", t_label),
        ("t_let_else", t_let_else),
    ];
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').collect();
        let f = fns.iter().find(|x| x.0 == w[0]).unwrap().1;
        let (a, b, c) = (w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap());
        match std::panic::catch_unwind(move || f(a, b, c)) {
            Ok(v) => println!("{}", v),
            Err(_) => println!("panic"),
        }
    }
}
