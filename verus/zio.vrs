//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
//@include prelude_end.inc
