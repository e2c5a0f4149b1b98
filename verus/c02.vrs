//@include prelude.inc
//@include bytes.inc
//@include core.inc
//@include zio.inc
//@include qoi.inc
//@include qoidec.inc
//@include prelude_end.inc
