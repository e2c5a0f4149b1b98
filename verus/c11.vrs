//@include prelude.inc
//@include bytes.inc
//@include deflenc.inc
//@include prelude_end.inc
