#[cfg(feature = "parse")]
entries! { parse:
  u_utf8 = t_base::utf8_summary;
  raw_body_10 = t_base::raw_body::<10>;
  raw_body_11 = t_base::raw_body::<11>;
  raw_body_12 = t_base::raw_body::<12>;
  raw_body_16 = t_base::raw_body::<16>;
  raw_body_20 = t_base::raw_body::<20>;
  raw_body_24 = t_base::raw_body::<24>;
  p_header = t_parse::header;
  p_header_short = t_parse::header_short;
  p_truncated = t_parse::truncated;
  p_mutated = t_parse::mutated;
  p_root = t_parse::root;
  p_unused = t_parse::unused;
  p_prim = t_parse::prim;
  p_prim_raw = t_parse::prim_raw;
  p_prim_many = t_parse::prim_many;
  p_str_len = t_parse::str_len;
  p_str_long = t_parse::str_long;
  p_str_huge = t_parse::str_huge;
  p_str_utf8 = t_parse::str_utf8;
  p_class = t_parse::class;
  p_class_names = t_parse::class_names;
  p_class_raw_10 = t_parse::class_raw::<10>;
  p_class_raw_12 = t_parse::class_raw::<12>;
  p_class_types_raw = t_parse::class_types_raw;
  p_class_nested = t_parse::class_nested;
  p_class_deep = t_parse::class_deep;
  p_with_id = t_parse::with_id;
  p_with_id_pick = t_parse::with_id_pick;
  p_with_id_self = t_parse::with_id_self;
  p_array_raw_5 = t_parse::array_raw::<5>;
  p_array_raw_7 = t_parse::array_raw::<7>;
  p_array_object = t_parse::array_object;
  p_array_tail_7 = t_parse::array_tail::<7>;
  p_array_tail_8 = t_parse::array_tail::<8>;
  p_nulls = t_parse::nulls;
  p_nulls_mixed = t_parse::nulls_mixed;
  p_nulls_member = t_parse::nulls_member;
  p_binary_array_raw_3 = t_parse::binary_array_raw::<3>;
  p_binary_array_raw_5 = t_parse::binary_array_raw::<5>;
  p_shape = t_parse::shape;
  p_jagged = t_parse::jagged;
  p_refs_ids = t_parse::refs_ids;
  p_refs_class = t_parse::refs_class;
  p_refs_order = t_parse::refs_order;
  p_refs_nested = t_parse::refs_nested;
  p_refs_inline_string = t_parse::refs_inline_string;
  p_refs_call = t_parse::refs_call;
  p_refs_chain = t_parse::refs_chain;
  p_ids = t_parse::ids;
  p_counts = t_parse::counts;
  p_counts_rank = t_parse::counts_rank;
  p_counts_dims = t_parse::counts_dims;
  p_counts_huge = t_parse::counts_huge;
  p_libs = t_parse::libs;
  p_libs_place = t_parse::libs_place;
  p_libs_call = t_parse::libs_call;
  p_libs_typed = t_parse::libs_typed;
  p_flags = t_parse::flags;
  p_flags_array = t_parse::flags_array;
  p_call = t_parse::call;
  p_call_raw_6 = t_parse::call_raw::<6>;
  p_call_raw_7 = t_parse::call_raw::<7>;
  p_call_raw_10 = t_parse::call_raw::<10>;
  p_call_array = t_parse::call_array;
  p_call_twice = t_parse::call_twice;
  p_typed_raw_7 = t_parse::typed_raw::<7>;
  p_typed_raw_8 = t_parse::typed_raw::<8>;
  p_typed_refs = t_parse::typed_refs;
  p_typed_class = t_parse::typed_class;
}

#[cfg(feature = "scalar")]
entries! { scalar:
  s_int_member = t_scalar::int_member;
  s_int_array = t_scalar::int_array;
  s_int_boxed = t_scalar::int_boxed;
  s_other = t_scalar::other_types;
  s_boxed_bad = t_scalar::boxed_bad;
  s_boxed_struct = t_scalar::boxed_struct;
  s_borrowed = t_scalar::borrowed;
  s_decimal_2 = t_scalar::decimal::<2>;
  s_decimal_3 = t_scalar::decimal::<3>;
  s_decimal_4 = t_scalar::decimal::<4>;
}

#[cfg(feature = "list")]
entries! { list:
  s_seq = t_list::seq;
  s_seq_nulls = t_list::seq_nulls;
  s_list = t_list::list;
  s_list_of = t_list::list_of;
  s_list_bad = t_list::list_bad;
}

#[cfg(feature = "object")]
entries! { object:
  s_object = t_object::object;
  s_object_names = t_object::object_names;
  s_object_nested = t_object::object_nested;
  s_methods = t_object::methods;
}

#[cfg(feature = "any")]
entries! { any:
  s_errors = t_any::errors;
  v_header = || t_any::with(t_parse::header);
  v_prim = || t_any::with(t_parse::prim);
  v_truncated = || t_any::with(t_parse::truncated);
  v_mutated = || t_any::with(t_parse::mutated);
  v_class = || t_any::with(t_parse::class);
  v_class_types_raw = || t_any::with(t_parse::class_types_raw);
  v_array_object = || t_any::with(t_parse::array_object);
  v_nulls_mixed = || t_any::with(t_parse::nulls_mixed);
  v_shape = || t_any::with(t_parse::shape);
  v_jagged = || t_any::with(t_parse::jagged);
  v_refs_class = || t_any::with(t_parse::refs_class);
  v_refs_nested = || t_any::with(t_parse::refs_nested);
  v_typed_class = || t_any::with(t_parse::typed_class);
  v_call = || t_any::with(t_parse::call);
  v_with_id = || t_any::with(t_parse::with_id);
  v_array_raw_5 = || t_any::with(t_parse::array_raw::<5>);
  v_body_10 = || t_any::with(t_base::raw_body::<10>);
  v_body_12 = || t_any::with(t_base::raw_body::<12>);
}
