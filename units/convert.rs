// Shared: String from &str.
//@ module ax
pub broadcast axiom fn ax_string_from_str<'a>(v: &'a str)
    ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(v))@ == v@,
;
pub broadcast axiom fn ax_string_from_str_obeys<'a>()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'a str>>::obeys_from_spec(),
;
pub broadcast axiom fn ax_string_from_ref<'a>(v: &'a String)
    ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&'a String>>::from_spec(v))@ == v@,
;
pub broadcast axiom fn ax_string_from_ref_obeys<'a>()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'a String>>::obeys_from_spec(),
;
pub broadcast group vx_axioms_device { ax_string_from_str, ax_string_from_str_obeys, ax_string_from_ref, ax_string_from_ref_obeys }
//@ module spec
