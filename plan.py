"""Which entries of the harness decide which property.

`name?:60` is an entry that deepens the bound when time allows (at most 60 s); the others have to
be decided completely.
"""
import os, re

_g = {}
_cur = None
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness/src/entries.rs')):
    _m = re.match(r'entries! \{ (\w+):', _l)
    if _m:
        _cur = _m[1]
    _m = re.match(r'  (\w+) =', _l)
    if _m:
        _g[_m[1]] = _cur


def GROUP(name):
    return _g[name]


def _p(quick, thorough=''):
    return {'quick': ['u_utf8'] * any(_g[n.rstrip('?').split(':')[0].split('?')[0]] == 'parse' for n in quick.split()) + quick.split(),
            'thorough': thorough.split()}


PLAN = {
    'P01': _p('raw_body_10 raw_body_11 p_class_raw_10 p_array_raw_5 p_array_tail_7 p_binary_array_raw_3 p_call_raw_6 p_typed_raw_7 '
              'p_counts p_counts_rank p_counts_dims p_counts_huge p_class_deep p_refs_chain p_prim_raw p_str_len p_class_names p_mutated raw_body_12?:60',
              'raw_body_12 p_class_raw_12 p_array_raw_7 p_array_tail_8 p_binary_array_raw_5 p_typed_raw_8 p_call_raw_7 p_str_huge? raw_body_16? raw_body_20?'),
    'P02': _p('p_header p_header_short p_truncated p_mutated p_unused raw_body_10', 'raw_body_11 raw_body_12'),
    'P03': _p('p_prim p_prim_raw p_prim_many p_call', 's_other s_int_member s_int_array'),
    'P04': _p('p_str_len p_str_long p_str_utf8 p_class_names s_borrowed', 'p_str_huge?'),
    'P05': _p('p_root p_unused p_libs_place p_refs_order', 'raw_body_11 raw_body_12'),
    'P06': _p('p_class p_class_names p_class_raw_10 p_class_types_raw p_class_nested p_class_deep p_libs', 'p_class_raw_12'),
    'P07': _p('p_with_id p_with_id_pick p_with_id_self p_class p_typed_class'),
    'P08': _p('p_nulls p_nulls_mixed p_nulls_member p_array_object'),
    'P09': _p('p_array_raw_5 p_array_object p_array_tail_7 p_binary_array_raw_3 p_shape p_jagged p_nulls_mixed p_counts_dims',
              'p_array_raw_7 p_array_tail_8 p_binary_array_raw_5'),
    'P10': _p('p_refs_ids p_refs_class p_refs_order p_refs_nested p_refs_inline_string p_refs_call p_refs_chain p_typed_refs'),
    'P11': _p('p_ids p_counts p_counts_rank p_counts_dims p_counts_huge p_with_id_pick p_refs_ids p_libs'),
    'P12': _p('p_libs p_libs_place p_libs_call p_libs_typed p_class'),
    'P13': _p('p_flags p_flags_array p_call p_call_array'),
    'P14': _p('p_call p_call_raw_6 p_call_array p_call_twice p_refs_call p_flags_array p_libs_call', 'p_call_raw_7 p_call_raw_10?'),
    'P15': _p('p_typed_raw_7 p_typed_refs p_typed_class p_libs_typed p_class', 'p_typed_raw_8'),
    'P16': _p('s_int_member s_int_array s_other s_borrowed'),
    'P17': _p('s_int_boxed s_other s_boxed_bad s_boxed_struct'),
    'P18': _p('s_list s_list_of s_list_bad'),
    'P19': _p('s_seq s_seq_nulls s_object s_object_names s_object_nested'),
    'P20': _p('s_decimal_2 p_prim', 's_decimal_3 s_decimal_4?'),
    'P21': _p('s_methods s_errors v_header v_truncated v_mutated v_class v_array_object v_nulls_mixed v_shape v_jagged v_refs_class '
              'v_refs_nested v_typed_class v_call v_with_id v_array_raw_5 v_body_10',
              'v_prim? v_class_types_raw v_body_12'),
}
