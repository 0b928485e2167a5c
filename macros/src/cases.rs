// Written by tools/gen_macros.py.
use crate::*;

// Nothing is imported here.
mod bare {
    pub fn c0(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "é日本😀" = { 7 = (u), }, true = { -8 = w 7 = 18446744073709551615u64 b = ["${var.a}"], "é日本😀" = [l, 9i64, (vec![i, 1]), (t(1))], }, ("lit") = { ("lit") = (b), (s.clone()) = { (s.clone()) = (s) }, } })
    }

    pub fn c1(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ b = { "a.b" = { _u = l "$${x}" = (i) "b c" = null, }, }, })
    }

    pub fn c2(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c3(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ 7 = ["#", "back\\slash", 42, -3], }, { copy = 42 long_identifier_of_many_bytes = "//" 7 = 42, }, ["-",], [{ },]])
    }

    pub fn c4(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (st) = [null, { }, l] })
    }

    pub fn c5(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[[-3], -3, [-3, "${var.a}", false, 0], { },], [{ _u = "{}", null = true if = 0.25 foo = "é日本😀", }], 1.5, 1.5])
    }

    pub fn c6(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[{ -8 = null, }, { "$${x}" = false "//" = "b c", value = false }, { _u = "[1, 2]", -8 = "[1, 2]", match = 1.5, },], 2147483647,])
    }

    pub fn c7(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(null)
    }

    pub fn c8(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c9(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((vec![i, 1]))
    }

    pub fn c10(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "null" = false, "q\"x" = [], "%{ if x }" = [f, false, 0.25, t(2)], (e) = -3, })
    }

    pub fn c11(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c12(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ -8 = "$${x}" }, 0, 2147483647,])
    }

    pub fn c13(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("{}")
    }

    pub fn c14(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("tab\tnew\nline")
    }

    pub fn c15(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(null)
    }

    pub fn c16(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[[(w), (!b), 1.5]], false, { "{}" = { ("lit") = vec![i, 1], match = 42 "1" = t(3), }, elems = { }, "%{ if x }" = [] b = { (st) = null, } }])
    }

    pub fn c17(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("a.b")
    }

    pub fn c18(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c19(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((s))
    }

    pub fn c20(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ }])
    }

    pub fn c21(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "é日本😀" = [[o,], { }, 9i64] })
    }

    pub fn c22(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("1")
    }

    pub fn c23(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(["tab\tnew\nline", { "//" = l, (st) = { x1 = f, (e) = vec![i, 1], }, "%%" = (u, &s), }])
    }

    pub fn c24(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([(t(4))])
    }

    pub fn c25(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ ("lit") = { } })
    }

    pub fn c26(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((t(5)))
    }

    pub fn c27(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[u, { "b c" = t(6), 'c' = t(7), 7 = e true = i }, l, { 7 = s, 'c' = e, "$${x}" = 18446744073709551615u64, "null" = 42, }]])
    }

    pub fn c28(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(-3)
    }

    pub fn c29(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([null, "-",])
    }

    pub fn c30(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("tab\tnew\nline")
    }

    pub fn c31(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([null])
    }

    pub fn c32(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ a = false, })
    }

    pub fn c33(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ 'c' = { ("lit") = (t(8)), (s.clone()) = true } "1" = (t(9)), "back\\slash" = l, type = null, })
    }

    pub fn c34(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c35(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[{ "[1, 2]" = l, ("lit") = 7u8, (st) = t(10), }, 1.5, [u / 2 + 1, i, "{}", -3]], (i), [{ (format!("k{u}")) = -3, }], { (format!("k{u}")) = w "[1, 2]" = { "tab\tnew\nline" = f, (s.clone()) = u, (u) = 0.25, -8 = -3, }, }])
    }

    pub fn c36(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[s, [s,]], { }, { match = [!b, true], }, [[Some(st), 7u8, (vec![i, 1])], [0], { "q\"x" = "" resource = -3, }]])
    }

    pub fn c37(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c38(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("true")
    }

    pub fn c39(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ -8 = (if b { 1u64 } else { 2 }) })
    }

    pub fn c40(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ a = "1", x1 = [(t(11)), true, (w)], (u) = { "b c" = i, (format!("k{u}")) = (Some(st)), ("lit") = (i) } 7 = [1.5, i], }, t(12), [(t(13)), [(t(14)), 18446744073709551615u64], { }, [!b, (vec![i, 1]), (e), t(15)]], [{ "é日本😀" = 18446744073709551615u64 }, [],]])
    }

    pub fn c41(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("")
    }

    pub fn c42(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(-3)
    }

    pub fn c43(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(u)
    }

    pub fn c44(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([null, (l), 9i64, 1.5])
    }

    pub fn c45(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ -8 = [[b, true], [2147483647, false, "//"], { "q\"x" = (f), (s.clone()) = l, (st) = "$${x}", }, f] })
    }

    pub fn c46(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "" = (u), ("lit") = w, (format!("k{u}")) = [] })
    }

    pub fn c47(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((u, &s))
    }

    pub fn c48(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ -8 = { bar_baz = "1", -8 = null key = false } a = -3, "back\\slash" = [{ -8 = false, 7 = false }, { },], })
    }

    pub fn c49(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(false)
    }

    pub fn c50(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(-3)
    }

    pub fn c51(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "a" = (t(16)), })
    }

    pub fn c52(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((u / 2 + 1))
    }

    pub fn c53(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (st) = 7u8 })
    }

    pub fn c54(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(-3)
    }

    pub fn c55(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ type = { foo = "{}" }, "back\\slash" = { "back\\slash" = 2147483647 } "q\"x" = true, }])
    }

    pub fn c56(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(false)
    }

    pub fn c57(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(('c'))
    }

    pub fn c58(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[{ bar_baz = "a", }, 42], null, null, [false, { 7 = "$${x}" }, { 7 = 0, "#" = "[1, 2]", }]])
    }

    pub fn c59(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([(t(17)), [{ if = "$${x}" }, [(t(18))], { "b c" = null "null" = -3, elems = 42, (st) = (t(19)), }, { ("lit") = (t(20)) value = null, é = 9i64, 7 = 0, }], [], 42,])
    }

    pub fn c60(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (s.clone()) = { }, key = { "tab\tnew\nline" = e, }, "true" = i })
    }

    pub fn c61(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([f, (b), b])
    }

    pub fn c62(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((f))
    }

    pub fn c63(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c64(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[[-3,], (b), { "[1, 2]" = false, "#" = t(21), },],])
    }

    pub fn c65(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c66(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[["$${x}", (if b { 1u64 } else { 2 }), b, 42,], "${var.a}", "1", { -8 = -3, (u) = "//" "${var.a}" = (o), }], { 7 = [if b { 1u64 } else { 2 }, ((u, &s))], (u) = { "a.b" = u / 2 + 1, x1 = (t(22)), "b c" = (t(23)) }, copy = { 'c' = (f) "${var.a}" = u long_identifier_of_many_bytes = 'c', }, (format!("k{u}")) = { match = t(24), "true" = e, } }])
    }

    pub fn c67(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (e) = "%%", (format!("k{u}")) = t(25), })
    }

    pub fn c68(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ resource = { "{}" = "null", copy = null, } "back\\slash" = [0] "-" = ["a.b", true, "//", "tab\tnew\nline"], -8 = [false], }, [null, { null = 2147483647, -8 = "a.b", },]])
    }

    pub fn c69(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(1.5)
    }

    pub fn c70(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[42,], [["b c", "$${x}",], ["#", 0, "%%"], { "//" = null, }], "null"])
    }

    pub fn c71(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("-")
    }

    pub fn c72(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([('c'), "%{ if x }"])
    }

    pub fn c73(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (st) = [[t(26), 9i64], (st), []] })
    }

    pub fn c74(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "q\"x" = [null,] })
    }

    pub fn c75(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(0.25)
    }

    pub fn c76(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[{ }, [7u8,], { (s.clone()) = s, }, 0]])
    }

    pub fn c77(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ "#" = [], -8 = -3, }, "tab\tnew\nline"])
    }

    pub fn c78(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(-3)
    }

    pub fn c79(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((t(27)))
    }

    pub fn c80(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((t(28)))
    }

    pub fn c81(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(l)
    }

    pub fn c82(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([-3, "%%", { key = { "a" = "1" }, object = { "q\"x" = "%%" }, }, true])
    }

    pub fn c83(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (s.clone()) = st })
    }

    pub fn c84(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("#")
    }

    pub fn c85(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ ("lit") = Some(st), (s.clone()) = { } })
    }

    pub fn c86(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(0.25)
    }

    pub fn c87(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c88(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ "true" = -3, 7 = "-" a = (w), (e) = { ("lit") = e null = i "q\"x" = (l), }, }, { "#" = t(29), "tab\tnew\nline" = [e], }, { }, (u / 2 + 1),])
    }

    pub fn c89(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ type = (l), x1 = [{ "a" = -3, "b c" = "tab\tnew\nline", "" = true, é = (s), }, { }, { }, [e, (if b { 1u64 } else { 2 }), "1", i],], "{}" = t(30), "" = { "a.b" = { "-" = f, }, } })
    }

    pub fn c90(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(false)
    }

    pub fn c91(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(18446744073709551615u64)
    }

    pub fn c92(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(["${var.a}"])
    }

    pub fn c93(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (st) = (st) })
    }

    pub fn c94(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "a" = (b), "#" = 0 foo = false, "%{ if x }" = [[(u), e, (s.len() as u64),], "tab\tnew\nline"] })
    }

    pub fn c95(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c96(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("#")
    }

    pub fn c97(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[[(st), (t(31)), 0, "$${x}"]], [{ "back\\slash" = (f), (st) = 7u8, },], -3])
    }

    pub fn c98(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([null,])
    }

    pub fn c99(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c100(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c101(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(["null", "%%", 0.25, "{}"])
    }

    pub fn c102(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([[1.5, 0.25]])
    }

    pub fn c103(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c104(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(true)
    }

    pub fn c105(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c106(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(-3)
    }

    pub fn c107(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ a = "b c" "tab\tnew\nline" = null, })
    }

    pub fn c108(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("tab\tnew\nline")
    }

    pub fn c109(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ -8 = { 7 = null } value = 2147483647 é = { self = { copy = null } "q\"x" = "-" } })
    }

    pub fn c110(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([])
    }

    pub fn c111(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([if b { 1u64 } else { 2 }, true, [{ "{}" = "${var.a}" }], [(s.len() as u64), ["#", t(32), t(33)]]])
    }

    pub fn c112(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c113(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ })
    }

    pub fn c114(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([{ (e) = [(e)], "null" = [(i)], b = { _u = (format!("{s}-{u}")) match = null }, ("lit") = Some(st), }, i, [{ (e) = (u / 2 + 1), ("lit") = w 7 = "%{ if x }", (s.clone()) = "true", }, [f, l, (t(34)), (t(35))], 9i64]])
    }

    pub fn c115(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ 7 = { } b = "{}" "-" = 2147483647 "true" = -3, })
    }

    pub fn c116(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!((f))
    }

    pub fn c117(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "[1, 2]" = b, ("lit") = { (u) = [u / 2 + 1], (e) = [], } })
    }

    pub fn c118(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!([0.25, [('c')], { (s.clone()) = [(u, &s), Some(st), (s.len() as u64), t(36),], }])
    }

    pub fn c119(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(null)
    }

    pub fn c120(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ "//" = 'c', (st) = b, true = [l, { }, (b), { "[1, 2]" = vec![i, 1], "${var.a}" = u }] "q\"x" = [[null, 0.25, 9i64, (u, &s),]], })
    }

    pub fn c121(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(true)
    }

    pub fn c122(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ elems = { } })
    }

    pub fn c123(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (s.clone()) = "back\\slash", é = { (s.clone()) = [if b { 1u64 } else { 2 }], (u) = s }, })
    }

    pub fn c124(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(t(37))
    }

    pub fn c125(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("#")
    }

    pub fn c126(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(false)
    }

    pub fn c127(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!(0.25)
    }

    pub fn c128(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!("b c")
    }

    pub fn c129(x: &crate::Vars) -> hcl::Expression {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::expression!({ (u) = ['c',], (e) = { }, })
    }

    pub fn c130(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ })
    }

    pub fn c131(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(-3)
    }

    pub fn c132(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(-3)
    }

    pub fn c133(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(false)
    }

    pub fn c134(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ (st) = [[], vec![i, 1], [w,], [u, l,]] })
    }

    pub fn c135(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("#")
    }

    pub fn c136(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "%{ if x }" = { "é日本😀" = 42 "${var.a}" = null, "#" = { "q\"x" = true, "%%" = -3, _u = false, } } object = { "" = { "$${x}" = true, value = "true" } "é日本😀" = { a = "true", }, } "a" = "#" })
    }

    pub fn c137(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(-3)
    }

    pub fn c138(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(null)
    }

    pub fn c139(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ copy = [[null, false, true]], match = -3, "true" = { "%%" = false, } })
    }

    pub fn c140(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(t(38))
    }

    pub fn c141(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "back\\slash" = 18446744073709551615u64, "-" = [true, 7u8,] })
    }

    pub fn c142(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[w,], "é日本😀", { }])
    }

    pub fn c143(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ (s.clone()) = { "a.b" = 18446744073709551615u64 "a" = { if = 1.5, "back\\slash" = 18446744073709551615u64, (st) = null, ("lit") = "$${x}" }, "//" = "//" }, elems = ((u, &s)), (st) = [{ "a.b" = null, }] "a" = [{ "a" = st, },], })
    }

    pub fn c144(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ elems = "true", "-" = { null = { "a" = "" object = null bar_baz = "$${x}", }, }, type = { "tab\tnew\nline" = { "-" = -3, }, }, })
    }

    pub fn c145(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(t(39))
    }

    pub fn c146(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(u / 2 + 1)
    }

    pub fn c147(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((t(40)))
    }

    pub fn c148(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([{ (st) = f, match = "b c", (s.clone()) = { "{}" = -3, (format!("k{u}")) = (st), a = "%{ if x }", (st) = (if b { 1u64 } else { 2 }) }, }])
    }

    pub fn c149(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ (s.clone()) = (t(41)) })
    }

    pub fn c150(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(null)
    }

    pub fn c151(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ if = "a" "back\\slash" = { (s.clone()) = { ("lit") = 7u8, } }, })
    }

    pub fn c152(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "%%" = 0.25 if = { "$${x}" = true, null = { _u = null, long_identifier_of_many_bytes = 2147483647, } "{}" = { value = false }, "-" = [-3, "{}", "b c", 42] }, })
    }

    pub fn c153(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("a")
    }

    pub fn c154(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(null)
    }

    pub fn c155(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(s)
    }

    pub fn c156(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([{ value = (t(42)) }])
    }

    pub fn c157(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ })
    }

    pub fn c158(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[[]], [st, { "null" = t(43), },], w, { "%%" = (s), ("lit") = { (s.clone()) = (!b), bar_baz = !b, ("lit") = false, foo = (l), }, (st) = o }])
    }

    pub fn c159(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("a.b")
    }

    pub fn c160(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("")
    }

    pub fn c161(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((b))
    }

    pub fn c162(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(st)
    }

    pub fn c163(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ })
    }

    pub fn c164(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([])
    }

    pub fn c165(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ (st) = { type = (t(44)), key = [-3] "a" = (t(45)), (format!("k{u}")) = { "${var.a}" = 7u8, }, } })
    }

    pub fn c166(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([false,])
    }

    pub fn c167(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("é日本😀")
    }

    pub fn c168(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(null)
    }

    pub fn c169(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "é日本😀" = { (st) = [s, false], "a" = { (st) = b, "#" = 9i64, copy = (b) }, (s.clone()) = [] }, })
    }

    pub fn c170(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ ("lit") = [], (st) = 1.5, value = [(s)] })
    }

    pub fn c171(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[42, false, [1.5, true, null], { "b c" = "q\"x", null = null foo = 1.5, elems = "%%", }], { "b c" = { "b c" = "null" "$${x}" = 2147483647 } }])
    }

    pub fn c172(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((t(46)))
    }

    pub fn c173(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((t(47)))
    }

    pub fn c174(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(0)
    }

    pub fn c175(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "a.b" = [], "//" = (o) foo = b, })
    }

    pub fn c176(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ long_identifier_of_many_bytes = "1", "é日本😀" = { "b c" = { object = "1" }, }, bar_baz = null "%%" = [] })
    }

    pub fn c177(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([(t(48))])
    }

    pub fn c178(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(-3)
    }

    pub fn c179(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(l)
    }

    pub fn c180(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((f))
    }

    pub fn c181(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "back\\slash" = [{ "null" = -3, }] "$${x}" = { }, copy = [[-3]] true = [{ }, "%%", [],], })
    }

    pub fn c182(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "$${x}" = [[7u8],], (format!("k{u}")) = [t(49)], })
    }

    pub fn c183(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ x1 = -3, é = 42 elems = [{ "[1, 2]" = "" }] "#" = [null, false, { key = null, "null" = -3, "a" = "q\"x", resource = true }], })
    }

    pub fn c184(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("true")
    }

    pub fn c185(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(["back\\slash", [true]])
    }

    pub fn c186(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(0)
    }

    pub fn c187(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(42)
    }

    pub fn c188(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([{ "a" = ["//", 0], },])
    }

    pub fn c189(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ resource = [] "%{ if x }" = null "a.b" = l })
    }

    pub fn c190(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((format!("{s}-{u}")))
    }

    pub fn c191(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((t(50)))
    }

    pub fn c192(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ })
    }

    pub fn c193(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("//")
    }

    pub fn c194(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((format!("{s}-{u}")))
    }

    pub fn c195(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(t(51))
    }

    pub fn c196(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("b c")
    }

    pub fn c197(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "a" = [["null", -3]], })
    }

    pub fn c198(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[[null], "%{ if x }"], -3, ["tab\tnew\nline", [], 0, [null,]], { value = "q\"x", bar_baz = [-3], self = "1", }])
    }

    pub fn c199(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((l))
    }

    pub fn c200(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([["back\\slash"], [{ foo = "${var.a}", (st) = (b) "[1, 2]" = 0 "tab\tnew\nline" = -3, }, { true = true "a.b" = null, "%{ if x }" = -3, }, [w], { type = true, },], [Some(st)]])
    }

    pub fn c201(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([u / 2 + 1, u / 2 + 1, l])
    }

    pub fn c202(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((t(52)))
    }

    pub fn c203(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ })
    }

    pub fn c204(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(-3)
    }

    pub fn c205(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([])
    }

    pub fn c206(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("a")
    }

    pub fn c207(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ _u = f })
    }

    pub fn c208(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ self = [{ "[1, 2]" = -3, }, "{}", false] })
    }

    pub fn c209(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ elems = null })
    }

    pub fn c210(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ elems = t(53), })
    }

    pub fn c211(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ ("lit") = [[-3],] foo = b, })
    }

    pub fn c212(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([(u, &s), [{ key = "é日本😀" elems = "1", bar_baz = "1" }, [42, true, format!("{s}-{u}")], [f],]])
    }

    pub fn c213(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ type = [], resource = [(t(54)), [(s), o, t(55)], [i]], (format!("k{u}")) = { "{}" = null, } "$${x}" = [if b { 1u64 } else { 2 }, f] })
    }

    pub fn c214(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(-3)
    }

    pub fn c215(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(t(56))
    }

    pub fn c216(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([t(57)])
    }

    pub fn c217(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([{ foo = { }, x1 = "é日本😀" copy = { "null" = "null" "1" = "#" }, }])
    }

    pub fn c218(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([])
    }

    pub fn c219(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([])
    }

    pub fn c220(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((f))
    }

    pub fn c221(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ })
    }

    pub fn c222(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ (format!("k{u}")) = s resource = 0.25, object = (t(58)), })
    }

    pub fn c223(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!("null")
    }

    pub fn c224(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(7u8)
    }

    pub fn c225(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ ("lit") = { value = (st), }, "-" = "-", elems = t(59), })
    }

    pub fn c226(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([{ (s.clone()) = (u, &s), copy = { "back\\slash" = (s) _u = (l), }, "1" = st }])
    }

    pub fn c227(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(null)
    }

    pub fn c228(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[[false]]])
    }

    pub fn c229(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ key = { long_identifier_of_many_bytes = [i, 9i64, 42] } "#" = { a = [(u),] "b c" = [(format!("{s}-{u}")), b, "a.b",], (format!("k{u}")) = ["-", w, ((u, &s)), 9i64,] }, })
    }

    pub fn c230(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!((s))
    }

    pub fn c231(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ if = { "a.b" = [1.5, "é日本😀", -3, "[1, 2]"], if = "true" type = "[1, 2]", resource = { }, }, "-" = [{ "" = "#", a = 2147483647, }], "$${x}" = { "1" = { "é日本😀" = "$${x}" foo = -3, }, "#" = { "q\"x" = -3, "%{ if x }" = true _u = false }, a = { "%{ if x }" = "#" "back\\slash" = -3, }, }, "b c" = { } })
    }

    pub fn c232(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[]])
    }

    pub fn c233(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([-3, true])
    }

    pub fn c234(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ (format!("k{u}")) = "null", ("lit") = { ("lit") = "1", (format!("k{u}")) = { true = "true" x1 = "q\"x", (format!("k{u}")) = vec![i, 1], } } })
    }

    pub fn c235(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!(vec![i, 1])
    }

    pub fn c236(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[[(s), f], { "$${x}" = f, }, { }, [(s.len() as u64), o,]],])
    }

    pub fn c237(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "//" = (vec![i, 1]), })
    }

    pub fn c238(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!([[]])
    }

    pub fn c239(x: &crate::Vars) -> hcl::Value {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::value!({ "#" = -3, true = -3, "%{ if x }" = [[0], ["%{ if x }"], "[1, 2]"] bar_baz = "$${x}" })
    }

    pub fn c240(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(_u "q\"x" "a" { é = null
        elems = { "q\"x" = "null" 7 = "${var.a}" true = [42, "b c", -3, -3] "%%" = "a" } }
        resource = 1.5)
    }

    pub fn c241(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ null = "true"
        b = "é日本😀" })
    }

    pub fn c242(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ _u = s
        copy = { 'c' = [u, -3, 18446744073709551615u64, l] } })
    }

    pub fn c243(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c244(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ copy  { a bar_baz { type = "true"
        null = (!b) }
        (id) "$${x}" key { self = s }
        (format!("k{u}")) = { } }
        object  { (format!("k{u}")) = { "null" = { "é日本😀" = "$${x}", } self = null "{}" = null }
        copy = { object = 0.25, (st) = null, long_identifier_of_many_bytes = -3, "a" = (if b { 1u64 } else { 2 }), } } })
    }

    pub fn c245(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ _u = [{ (u) = Some(st), }]
        match = "true"
        (format!("k{u}")) = e
        bar_baz = [] })
    }

    pub fn c246(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(x1 = st
        foo (s.clone()) { long_identifier_of_many_bytes _u "q\"x" "true" { value = false }
        x1 = (format!("{s}-{u}")) })
    }

    pub fn c247(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ self (format!("l{u}")) { _u = (vec![i, 1]) }
        match  {  } })
    }

    pub fn c248(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (format!("k{u}")) = w
        (id) = [] })
    }

    pub fn c249(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c250(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ object = { 'c' = [w, f, "tab\tnew\nline",], (format!("k{u}")) = { (format!("k{u}")) = "q\"x" "null" = 7u8 copy = true, (e) = (Some(st)), }, } })
    }

    pub fn c251(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ elems = [""] })
    }

    pub fn c252(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(long_identifier_of_many_bytes = (s.len() as u64)
        self "a.b" { object  { b = 2147483647 }
        bar_baz = l }
        self foo (s.clone()) key { elems  { long_identifier_of_many_bytes = "$${x}"
        (id) = w } }
        é copy "#" { (id)  { (id) = o
        type = (format!("{s}-{u}")) }
        a "a.b" { bar_baz = (format!("{s}-{u}"))
        (id) 'c' { bar_baz = (format!("{s}-{u}"))
        value = 0 }
        foo = [[((u, &s)), e], [(u, &s), 18446744073709551615u64,], [l, !b, (st)], f] }
        bar_baz = { }
        (format!("k{u}")) = i })
    }

    pub fn c253(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id) (s.clone()) "back\\slash" (format!("l{u}")) { long_identifier_of_many_bytes  { é  { é = [(o), "1", "b c", u / 2 + 1] }
        key = (!b) }
        type = { "true" = format!("{s}-{u}"), } }
        value = { (e) = false, } })
    }

    pub fn c254(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ é 'c' "%%" _u {  }
        foo  { é  { self = (format!("{s}-{u}")) }
        (format!("k{u}")) = { } } })
    }

    pub fn c255(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!((format!("k{u}")) = (e)
        key (st) {  })
    }

    pub fn c256(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ resource "null" value "1" { long_identifier_of_many_bytes "back\\slash" key (format!("l{u}")) {  }
        é = null } })
    }

    pub fn c257(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ long_identifier_of_many_bytes = false
        match "//" {  } })
    }

    pub fn c258(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c259(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id)  { a = [i, [e, false, (t(62)), true], { key = 1.5 },]
        object = "a"
        (format!("k{u}")) = (u)
        object (st) "{}" { foo  { (id) = (t(63))
        (format!("k{u}")) = (!b)
        foo = true
        (format!("k{u}")) = ["null", e, (Some(st)), false,] }
        (format!("k{u}")) = [[0.25, ((u, &s)), -3], [], { 7 = ('c'), }, t(65),] } }
        (id) = s
        value "q\"x" { (format!("k{u}")) = [u / 2 + 1, u, 42, 1.5]
        (id) = f
        _u = (o)
        elems "-" { object = { }
        (format!("k{u}")) = { 'c' = u } } }
        elems "[1, 2]" {  } })
    }

    pub fn c260(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c261(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(a  { b = 2147483647 }
        type = null)
    }

    pub fn c262(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c263(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ foo (s.clone()) (st) { elems "${var.a}" bar_baz bar_baz {  }
        a = [[!b], { (u) = 'c', }, st,] } })
    }

    pub fn c264(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(resource "" "a.b" type { a "b c" resource { _u = { "-" = vec![i, 1], 'c' = { (s.clone()) = (u / 2 + 1) a = "#", b = (format!("{s}-{u}")), value = null, } 7 = { é = vec![i, 1], "$${x}" = (l) "{}" = !b, } key = (s.len() as u64), } }
        key  {  } }
        match  { bar_baz = l
        null = { "${var.a}" = if b { 1u64 } else { 2 }, "back\\slash" = !b, }
        self = "${var.a}"
        (format!("k{u}")) = s }
        resource self { _u  { b = (u / 2 + 1)
        (format!("k{u}")) = "b c" }
        value (st) 'c' "q\"x" { self = 42
        resource  { long_identifier_of_many_bytes = { 7 = e, ("lit") = "b c", (st) = (!b), }
        match = false
        foo = { -8 = s, "[1, 2]" = w, (u) = if b { 1u64 } else { 2 }, }
        elems = 0.25 } } })
    }

    pub fn c265(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ foo = "" })
    }

    pub fn c266(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ key "true" elems { copy  { null = null
        x1 = "tab\tnew\nline"
        a = null }
        object = 42
        a = null
        é = true }
        match = [true, "back\\slash", "$${x}"] })
    }

    pub fn c267(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(key = { copy = b "#" = null, "q\"x" = null "true" = u / 2 + 1, }
        value = [[false, s.len() as u64, (u)], { "${var.a}" = (t(68)), }, "#", u / 2 + 1])
    }

    pub fn c268(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ x1 = { "a.b" = i, (st) = b, b = "null", }
        match = (u / 2 + 1)
        key  { (id) = e } })
    }

    pub fn c269(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (format!("k{u}")) = (u / 2 + 1)
        self  {  }
        x1 = false
        (id)  { _u  { null = 9i64
        x1 "-" "$${x}" { key = true
        (format!("k{u}")) = "tab\tnew\nline" }
        long_identifier_of_many_bytes = "null"
        (id) "1" { foo = []
        (format!("k{u}")) = "//"
        copy = null
        bar_baz = e } } } })
    }

    pub fn c270(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(b x1 _u {  }
        x1  { key = null
        type  { match = [-3,] } }
        b = { b = null, copy = null é = "#" "q\"x" = 42, }
        foo = 2147483647)
    }

    pub fn c271(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c272(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ resource = { _u = { }, }
        value = "null" })
    }

    pub fn c273(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(b self "%%" "a" { a = 9i64
        match 'c' {  } })
    }

    pub fn c274(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ key = (s)
        bar_baz = (Some(st))
        long_identifier_of_many_bytes = "é日本😀" })
    }

    pub fn c275(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ match = null })
    }

    pub fn c276(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(value  { (format!("k{u}")) = { b = [(e)], (u) = f, -8 = t(69), x1 = 18446744073709551615u64 }
        object  { object  { b = ((u, &s))
        _u = "back\\slash"
        copy = null
        bar_baz = [] }
        elems = "tab\tnew\nline"
        value = (format!("{s}-{u}")) } }
        (format!("k{u}")) = { (u) = false, foo = "${var.a}" "//" = "é日本😀", })
    }

    pub fn c277(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ value "b c" { (id)  { copy = u
        é long_identifier_of_many_bytes "tab\tnew\nline" (st) { resource = { "q\"x" = f long_identifier_of_many_bytes = 18446744073709551615u64, _u = t(70), (st) = true }
        _u = b
        match = [(t(71)),] }
        (id) = "${var.a}"
        foo (st) (format!("l{u}")) type { _u = "%%" } }
        resource "%{ if x }" "back\\slash" "$${x}" { b = [[]]
        elems = (t(72))
        (id) "//" "" { (format!("k{u}")) = ["#",]
        value = (e)
        (id) = e
        a = ('c') }
        (id) = [Some(st),] } }
        a = null })
    }

    pub fn c278(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ self "-" { (id) foo { x1 = { true = t(73), (s.clone()) = null, -8 = -3, x1 = i }
        _u = []
        _u "a.b" (s.clone()) { é = { "null" = { "[1, 2]" = (w), é = (t(74)) }, x1 = (e), }
        (format!("k{u}")) = { }
        null = null }
        (id) type "a.b" { bar_baz = { ("lit") = { 7 = st, ("lit") = (i) "tab\tnew\nline" = "$${x}", (st) = ((u, &s)) } }
        copy = [[18446744073709551615u64,]] } }
        (format!("k{u}")) = null }
        self = 9i64 })
    }

    pub fn c279(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(type = true
        _u = (t(75))
        (id) self "-" {  }
        x1 = "[1, 2]")
    }

    pub fn c280(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ a = { (format!("k{u}")) = -3, }
        key (format!("l{u}")) copy { copy = st }
        resource = st })
    }

    pub fn c281(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ type = "//"
        long_identifier_of_many_bytes = true
        a  { x1 = { type = -3, }
        value = "1" }
        object = { -8 = { "//" = false, }, } })
    }

    pub fn c282(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c283(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ object "null" { b = ["//", "1"]
        self = 2147483647 } })
    }

    pub fn c284(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c285(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(self  { (id) "%%" "back\\slash" "1" { x1 = { }
        (format!("k{u}")) = "{}"
        resource = { "é日本😀" = 0, "tab\tnew\nline" = (s), ("lit") = (if b { 1u64 } else { 2 }), (s.clone()) = s.len() as u64, }
        foo = l }
        object "q\"x" { (id) b é { resource = null
        (format!("k{u}")) = 2147483647 }
        key = i
        b "null" { match = f }
        a  {  } }
        a = [{ long_identifier_of_many_bytes = l, "tab\tnew\nline" = (!b) }, if b { 1u64 } else { 2 }, (t(76)), if b { 1u64 } else { 2 }]
        (id) "%{ if x }" "#" { key = ["-", 42, t(77), t(78)]
        (id)  {  } } }
        foo = (s)
        é = [7u8,]
        value  { resource = [{ null = 1.5 7 = (t(79)) },] })
    }

    pub fn c286(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ b = { self = -3, -8 = 1.5 }
        x1  { long_identifier_of_many_bytes = { }
        (id) 'c' { (format!("k{u}")) = (o)
        b  { x1 = (if b { 1u64 } else { 2 })
        value = "-" }
        é  {  } }
        null = (w)
        bar_baz = w }
        value "é日本😀" match { (id) = { (u) = { object = t(80), } match = { elems = i copy = 2147483647 null = st }, (s.clone()) = [0.25], -8 = { é = -3, }, }
        null = (format!("{s}-{u}"))
        a = { }
        (id) = { "#" = (t(81)), (e) = u, 7 = (e) bar_baz = t(82), } }
        foo = st })
    }

    pub fn c287(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ x1  { elems = st
        _u = "${var.a}" }
        long_identifier_of_many_bytes = [-3, e, (o), { (format!("k{u}")) = (format!("{s}-{u}")) object = e, 'c' = (e), "1" = null }]
        elems = false })
    }

    pub fn c288(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!((id) = "b c"
        (id) = { match = [i, 0.25, o,], }
        x1  { (id) (s.clone()) "1" { long_identifier_of_many_bytes = e
        b = (vec![i, 1]) }
        (id) "a.b" { type b "q\"x" { copy = (t(83))
        object = [('c')] }
        x1 = (l)
        match (st) { object = w
        elems = "-"
        copy = 18446744073709551615u64 } }
        value = e }
        elems = [])
    }

    pub fn c289(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ key = e
        bar_baz = l
        (id) (format!("l{u}")) { match = []
        long_identifier_of_many_bytes = s } })
    }

    pub fn c290(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id) "#" { _u = (vec![i, 1])
        (id) "-" { value = [i]
        self = f
        match = null }
        copy "back\\slash" { key  { (format!("k{u}")) = []
        foo = [t(86)]
        a = []
        resource = true }
        copy "a.b" { value = (t(87))
        long_identifier_of_many_bytes = ["{}"] }
        _u "b c" "${var.a}" { copy = (t(88))
        object = [t(89), "back\\slash"] }
        self = b }
        (id) = (t(90)) }
        elems  { self = w
        object 'c' "1" é { (id)  { type = "b c"
        null = [(o), w, (t(91)), 9i64]
        bar_baz = []
        x1 = [false, [(t(92)), (s),], vec![i, 1], "1"] }
        (id) = [true, i, st,] }
        null = [t(93),]
        key = 1.5 }
        long_identifier_of_many_bytes "-" { null = (e)
        (id)  { foo = { "%%" = (t(94)) "[1, 2]" = [e, format!("{s}-{u}")], (e) = { "{}" = 42 } }
        object (format!("l{u}")) { long_identifier_of_many_bytes = (st)
        (id) = l
        foo = (t(95)) } } } })
    }

    pub fn c291(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(copy (st) { (format!("k{u}")) = [s.len() as u64, "{}"]
        (format!("k{u}")) = { x1 = [(u, &s)], true = { "-" = "", (s.clone()) = t(96), (u) = t(97), } } }
        (format!("k{u}")) = "//")
    }

    pub fn c292(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ long_identifier_of_many_bytes = { value = [], }
        type = o })
    }

    pub fn c293(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (format!("k{u}")) = w
        key = (vec![i, 1]) })
    }

    pub fn c294(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(match = e
        copy = [{ (format!("k{u}")) = !b, "é日本😀" = (t(98)), }])
    }

    pub fn c295(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id) = "1"
        foo = 7u8
        key match "back\\slash" b { a  { long_identifier_of_many_bytes = { (e) = o, "//" = ["//", (u, &s), 1.5, (w)] a = [b,] copy = { 'c' = (e) }, }
        (format!("k{u}")) = { "$${x}" = o, "%{ if x }" = "null", 'c' = (e), ("lit") = 7u8 }
        self = "${var.a}"
        é = [{ (format!("k{u}")) = 18446744073709551615u64 "//" = (t(99)) long_identifier_of_many_bytes = null é = false, }, (u, &s), ["[1, 2]", (i), true], false,] }
        resource  { value = i
        bar_baz = [(w), (e)]
        match  { (id) = (if b { 1u64 } else { 2 })
        a = [7u8, (t(100)),]
        x1 = (t(101))
        value = 0 } } }
        match "[1, 2]" "%{ if x }" { (format!("k{u}")) = { value = { (e) = (if b { 1u64 } else { 2 }) } 7 = [7u8], (s.clone()) = i, "back\\slash" = st, }
        (format!("k{u}")) = l
        match  { foo = (s)
        (id) (st) { (format!("k{u}")) = 2147483647
        long_identifier_of_many_bytes = { 'c' = l, }
        null = null
        (format!("k{u}")) = { -8 = null } } } } })
    }

    pub fn c296(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id)  { elems = (o)
        long_identifier_of_many_bytes = { "{}" = f, "1" = [b, null, (l)], } }
        (format!("k{u}")) = e
        _u = (t(105)) })
    }

    pub fn c297(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(key  { type "é日本😀" "q\"x" { value key (st) { null = (t(106))
        é = f
        value = (t(107)) }
        resource 'c' { b = { (u) = -3, "b c" = null }
        (id) = (t(108))
        bar_baz = (!b) }
        resource = { }
        long_identifier_of_many_bytes = { -8 = null, if = t(109), long_identifier_of_many_bytes = if b { 1u64 } else { 2 }, } }
        self = "%{ if x }"
        foo = 0.25
        match "%{ if x }" long_identifier_of_many_bytes { (id) = b
        b = true } }
        value 'c' "é日本😀" { x1 = 0
        key = [true] }
        (id) = st
        self = i)
    }

    pub fn c298(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c299(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c300(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!((format!("k{u}")) = [s.len() as u64, { }, e]
        bar_baz  {  })
    }

    pub fn c301(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({  })
    }

    pub fn c302(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ long_identifier_of_many_bytes = (Some(st))
        value = false })
    }

    pub fn c303(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(b = "${var.a}"
        value object "a.b" {  }
        match = 2147483647
        resource = 0.25)
    }

    pub fn c304(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ match = []
        é = "a" })
    }

    pub fn c305(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (format!("k{u}")) = "#"
        bar_baz = null
        copy "1" "back\\slash" match { b "a" { é _u "//" { _u = st
        resource = null }
        match = false }
        (id) = (i) }
        key  { b = [st, (u, &s), t(111), 1.5,]
        long_identifier_of_many_bytes  {  } } })
    }

    pub fn c306(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(resource "null" "back\\slash" "null" { resource copy "b c" { self "-" { type = "tab\tnew\nline"
        é = "#"
        copy = "tab\tnew\nline" }
        resource "tab\tnew\nline" { foo = true
        null = { "a" = false, 7 = null } } }
        b = false
        é = "{}" }
        x1 = true)
    }

    pub fn c307(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id) = true
        x1 x1 { (format!("k{u}")) = i } })
    }

    pub fn c308(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id) = "null"
        _u  { é = "1" }
        (id) = "${var.a}"
        copy (format!("l{u}")) "$${x}" { é = (u / 2 + 1)
        self = [] } })
    }

    pub fn c309(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(bar_baz "é日本😀" { type = 2147483647
        self = { resource = "back\\slash" } }
        a = "{}"
        type = null
        value = "null")
    }

    pub fn c310(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ bar_baz "[1, 2]" "true" { (id) foo { (id) = e
        long_identifier_of_many_bytes  { (id) = e
        (id) = null
        é = (w)
        match = true }
        (format!("k{u}")) = (o) } } })
    }

    pub fn c311(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ type = null
        a "null" self { é "a.b" "{}" copy { match = { -8 = "tab\tnew\nline" }
        value = [-3,] } } })
    }

    pub fn c312(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(long_identifier_of_many_bytes = null
        match  { key  { é  { object = { "[1, 2]" = null, }
        copy = null }
        _u = { } }
        bar_baz "a" { null = { }
        é  { null = ""
        foo = ["a.b", false] }
        foo = 0 }
        resource  { key "$${x}" "#" value { null = { -8 = true }
        b = false }
        a = { }
        copy = { x1 = { match = "[1, 2]", 7 = "{}", } "${var.a}" = { _u = null } } } }
        long_identifier_of_many_bytes "%{ if x }" {  })
    }

    pub fn c313(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ self (s.clone()) (st) "$${x}" { x1 foo "true" { match = { (u) = "a" }
        x1 = { (format!("k{u}")) = -3, value = null } }
        b "1" { bar_baz  { é = (!b)
        (format!("k{u}")) = 0 } }
        (format!("k{u}")) = [[(if b { 1u64 } else { 2 })], { match = (format!("{s}-{u}")) }, l,]
        long_identifier_of_many_bytes 'c' { (format!("k{u}")) = 0.25
        (id) = (st) } }
        (id)  { (id) = null
        (id) = "{}"
        foo "b c" "" (format!("l{u}")) { (id) = [(t(113))] }
        _u = { 'c' = -3, self = t(114), } } })
    }

    pub fn c314(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ elems = (u / 2 + 1)
        é = (i)
        resource = f
        bar_baz "%%" "tab\tnew\nline" "q\"x" { é  { elems = true }
        (id) "a.b" (st) { key  { é = (!b) }
        match = { "a.b" = true, self = "back\\slash" "b c" = Some(st), } }
        bar_baz  { type = true }
        (id)  { elems = "null"
        null = 7u8
        type = "-"
        (format!("k{u}")) = { } } } })
    }

    pub fn c315(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(é = false
        b (s.clone()) b { (id)  { bar_baz "%{ if x }" _u { null = (!b) }
        copy = [[]]
        copy (st) "#" { x1 = false
        object = 0.25 }
        x1 = true }
        b = [if b { 1u64 } else { 2 }, ('c'), 0]
        x1 = null
        key = { foo = e key = 2147483647, b = -3, (st) = (b), } }
        bar_baz resource "%%" { elems = "q\"x"
        x1 object { é = 9i64
        elems = ["q\"x", -3, -3,] } })
    }

    pub fn c316(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ é = { "-" = ["-", "é日本😀", (b)] }
        b = { (s.clone()) = [], (e) = { "1" = "{}" type = 18446744073709551615u64, (format!("k{u}")) = !b, 7 = false } }
        foo  {  }
        type  { null = "[1, 2]"
        (format!("k{u}")) = ((u, &s)) } })
    }

    pub fn c317(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ key = "{}"
        copy  {  } })
    }

    pub fn c318(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(key  { a "%%" "q\"x" { match = null
        copy = true
        resource "a.b" "q\"x" {  }
        elems "//" bar_baz {  } }
        self object "b c" { object = 2147483647
        x1  { copy = { }
        key = [1.5,]
        x1 = { 7 = { true = "q\"x" }, } }
        long_identifier_of_many_bytes = { foo = [null], } } }
        object = "é日本😀")
    }

    pub fn c319(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ key  { elems = { 7 = { "%{ if x }" = 18446744073709551615u64 } key = { }, self = [l] } }
        b = []
        (format!("k{u}")) = { long_identifier_of_many_bytes = l }
        self = 2147483647 })
    }

    pub fn c320(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ foo match (format!("l{u}")) { a  { (id) 'c' "a.b" {  }
        long_identifier_of_many_bytes = [null]
        resource "" {  } }
        copy = u } })
    }

    pub fn c321(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(long_identifier_of_many_bytes = [true])
    }

    pub fn c322(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ foo self "é日本😀" {  }
        x1 = "back\\slash" })
    }

    pub fn c323(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ type "b c" long_identifier_of_many_bytes { value  { resource  {  }
        (id) = [[null, (b), (vec![i, 1]), u / 2 + 1],] } }
        a = { "b c" = { true = "a", (format!("k{u}")) = false, ("lit") = (t(116)), } }
        (format!("k{u}")) = w })
    }

    pub fn c324(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(b "1" _u { foo = false
        null = 1.5
        value = null
        key = null }
        null = "")
    }

    pub fn c325(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ é = "-"
        bar_baz = "{}" })
    }

    pub fn c326(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ _u x1 {  }
        object = ""
        b "" { object "back\\slash" "%{ if x }" { value = { a = "${var.a}", } }
        self = true } })
    }

    pub fn c327(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(a  { match  {  }
        elems resource "{}" {  } }
        foo = true)
    }

    pub fn c328(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ long_identifier_of_many_bytes = b })
    }

    pub fn c329(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ match  {  }
        match self self "a" { (id) = (e) } })
    }

    pub fn c330(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(key = false
        resource = { 7 = "[1, 2]", }
        bar_baz value copy "b c" { match = "null"
        long_identifier_of_many_bytes long_identifier_of_many_bytes { é = "#"
        match = 0
        foo = true } })
    }

    pub fn c331(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ x1 = "tab\tnew\nline"
        match  { key  { long_identifier_of_many_bytes = "%%"
        match  { match = 42 } } }
        foo  { self "1" { key = { copy = [null, 0, "$${x}"], x1 = ["//", -3, false] true = { }, } }
        object  { match = "q\"x"
        type = { "//" = false, "null" = 42, _u = -3, -8 = "%{ if x }" } } }
        value  {  } })
    }

    pub fn c332(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ object = [1.5,]
        foo = { 7 = false, "a.b" = 0, "#" = -3, "b c" = "//" } })
    }

    pub fn c333(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(é = (vec![i, 1])
        match "{}" "é日本😀" {  })
    }

    pub fn c334(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ type  {  }
        copy  { (id) = 0.25
        elems resource "" (s.clone()) { (id) "true" "é日本😀" "[1, 2]" { type = { (u) = e, match = "//", "1" = !b, (e) = e } }
        (id) = [st]
        (id)  { é = "{}"
        (format!("k{u}")) = (w) }
        é  { resource = 42
        (id) = i
        value = { } } } }
        resource = 0.25
        (id) "tab\tnew\nline" 'c' (s.clone()) { (format!("k{u}")) = { -8 = t(119), (u) = u / 2 + 1, "[1, 2]" = !b, -8 = s.len() as u64, }
        (format!("k{u}")) = { }
        foo  { object = []
        object match { foo = { (u) = 0, (format!("k{u}")) = [(t(120))], (st) = (t(121)), -8 = { "%{ if x }" = s.len() as u64, }, }
        (format!("k{u}")) = [if b { 1u64 } else { 2 }, st]
        x1 = []
        type = [[], { (s.clone()) = if b { 1u64 } else { 2 }, }, [null, "%%"], { key = (w), }] } } } })
    }

    pub fn c335(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ b = [(!b)]
        value = null })
    }

    pub fn c336(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(object = [{ "é日本😀" = null, (u) = Some(st), "%%" = t(122), }, t(123), { (e) = ((u, &s)), 'c' = (u / 2 + 1) type = "{}", value = t(124), },]
        type = [[]])
    }

    pub fn c337(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ key = { é = 2147483647, }
        foo _u "${var.a}" { a long_identifier_of_many_bytes { object  { object = null
        value = true
        self = { "1" = { key = 0 }, type = "null", }
        key = "1" } }
        key = null }
        foo = null })
    }

    pub fn c338(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ value = (s) })
    }

    pub fn c339(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c340(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ match "a.b" { _u = "é日本😀"
        b = ["$${x}"]
        elems  { resource = "b c"
        self  {  }
        copy = 1.5 } }
        value = { "null" = -3, } })
    }

    pub fn c341(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ null = []
        b = { true = [null, -3, "é日本😀",] }
        value  {  }
        match = true })
    }

    pub fn c342(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!(self = f
        key = (t(125))
        key a "-" {  }
        value "q\"x" "a" object {  })
    }

    pub fn c343(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ bar_baz = [[t(126), 7u8], false, { "//" = b 7 = null, (format!("k{u}")) = st, null = w }, "a.b"]
        (id) = [] })
    }

    pub fn c344(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ self "$${x}" { (id)  { x1 = 2147483647 } }
        object "q\"x" "true" "q\"x" {  }
        b key (st) { _u = "q\"x"
        _u  { _u = true
        _u (st) "${var.a}" {  }
        self  { (format!("k{u}")) = { "q\"x" = { long_identifier_of_many_bytes = true, (format!("k{u}")) = (o), }, 'c' = [b], (s.clone()) = [t(127), st, Some(st)] }
        long_identifier_of_many_bytes = (s) }
        object = "%{ if x }" }
        foo = "%%" } })
    }

    pub fn c345(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c346(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ (id) "$${x}" bar_baz "//" { é = [{ (st) = (t(128)) }]
        key = (b) }
        elems = [null, "%{ if x }", -3] })
    }

    pub fn c347(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ foo  { (id) = { bar_baz = w, }
        (id) = { key = { (format!("k{u}")) = "é日本😀" }, "a" = b object = { (u) = t(129), match = null, (st) = (e) } } }
        a = [{ "back\\slash" = false "b c" = 0.25 "{}" = (t(130)), b = true, }] })
    }

    pub fn c348(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!()
    }

    pub fn c349(x: &crate::Vars) -> hcl::Body {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::body!({ x1 = "back\\slash"
        type = ["[1, 2]"] })
    }

    pub fn c350(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ é "${var.a}" (st) "a.b" { resource = { 7 = s, x1 = l, é = 7u8, "1" = null, }
        copy "" elems { object (st) 'c' 'c' {  } } } })
    }

    pub fn c351(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(self "%%" type x1 {  })
    }

    pub fn c352(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(foo "{}" { é "-" a { long_identifier_of_many_bytes = { }
        elems = [-3, "a.b", null,] }
        null = "${var.a}" })
    }

    pub fn c353(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ é  { (id)  { (id) = ["back\\slash", -3]
        (format!("k{u}")) = (i) }
        object = (t(131))
        (id) = (w) } })
    }

    pub fn c354(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(foo  { _u = f
        long_identifier_of_many_bytes "-" "%%" "back\\slash" { foo  {  }
        a = (t(132))
        match = 7u8
        self = { 'c' = 2147483647, foo = (!b), "1" = f, ("lit") = -3, } }
        resource = { (e) = { ("lit") = ('c') 7 = t(133), (s.clone()) = "null" } }
        bar_baz = null })
    }

    pub fn c355(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(object bar_baz value { match = "#"
        elems  { a = { 7 = { null = true, } _u = "é日本😀" "//" = { "q\"x" = "true", self = "" null = "[1, 2]" } }
        copy = { null = { -8 = "b c", } }
        resource  { bar_baz = "%{ if x }"
        _u = [-3,]
        é = false }
        resource "-" "1" { b = null
        elems = true } } })
    }

    pub fn c356(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ type "{}" "%{ if x }" { long_identifier_of_many_bytes = true
        resource  { object = "//" } } })
    }

    pub fn c357(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(bar_baz "null" "[1, 2]" { elems "%{ if x }" { type match 'c' { object = true
        elems = "%%" }
        key = (u) }
        (id) = u })
    }

    pub fn c358(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!((id) elems self { match (format!("l{u}")) "tab\tnew\nline" "{}" { (id) = (t(136))
        type = true }
        key = s })
    }

    pub fn c359(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ x1  {  } })
    }

    pub fn c360(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(x1 (format!("l{u}")) "" { _u = (s)
        resource = 18446744073709551615u64
        a = e })
    }

    pub fn c361(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(resource  { key = null })
    }

    pub fn c362(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ key  { value long_identifier_of_many_bytes 'c' resource { x1 = 0.25
        _u  { long_identifier_of_many_bytes = [!b, ('c'), o]
        null = null
        value = [[t(137), (t(138)), null, false], ["$${x}", "é日本😀", l, false,]] } } } })
    }

    pub fn c363(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(object "#" x1 { resource = (t(139)) })
    }

    pub fn c364(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(b (st) { é  { self = 7u8 }
        a "${var.a}" { long_identifier_of_many_bytes = [e, t(140), t(141),]
        (id)  {  } }
        resource  { _u = (t(142))
        object = { (s.clone()) = b foo = b, (st) = (w), (format!("k{u}")) = (l), }
        self  { copy = 42
        (id) = e
        b = (b)
        a = [(t(143)),] }
        value  { b = (u)
        key = { key = (f), (st) = (t(144)) 7 = null "${var.a}" = (t(145)), }
        (format!("k{u}")) = o } }
        elems "b c" (format!("l{u}")) {  } })
    }

    pub fn c365(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ a "-" "back\\slash" "1" { null = { }
        self = ["{}", { "q\"x" = -3, 7 = "${var.a}", key = 2147483647 }, "[1, 2]"] } })
    }

    pub fn c366(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(key  { type = (e)
        bar_baz "-" "q\"x" {  } })
    }

    pub fn c367(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(long_identifier_of_many_bytes  { (id) = { (st) = false, "null" = null }
        null = { 'c' = 7u8, ("lit") = 18446744073709551615u64, -8 = (t(146)), "%%" = (o) } })
    }

    pub fn c368(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ self "a" "1" { b b 'c' self { a "{}" "a" "%%" {  }
        self  { self = [(if b { 1u64 } else { 2 })]
        a = "a.b" } }
        resource = (t(147)) } })
    }

    pub fn c369(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!((id)  { (format!("k{u}")) = [[(e), o, 9i64, !b],]
        a = (s) })
    }

    pub fn c370(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!((id)  { (id)  {  } })
    }

    pub fn c371(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ foo "true" { key = [-3]
        match "true" "b c" { foo = null
        object = "tab\tnew\nline" }
        foo = true } })
    }

    pub fn c372(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(key  {  })
    }

    pub fn c373(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!((id) "{}" { (format!("k{u}")) = 42
        long_identifier_of_many_bytes = (b)
        key  {  }
        copy = "tab\tnew\nline" })
    }

    pub fn c374(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ long_identifier_of_many_bytes  { copy  {  }
        x1 = "%{ if x }"
        type = false } })
    }

    pub fn c375(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(type  { self  { key = (l)
        bar_baz = [["b c", s, 'c',], (l), l]
        (format!("k{u}")) = { } }
        (id)  { foo  { b = (u / 2 + 1)
        type = [] }
        _u = { (u) = !b, -8 = 0.25, (st) = 2147483647, }
        (id)  { object = [{ match = t(150), },]
        foo = { (e) = null } } } })
    }

    pub fn c376(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(bar_baz  {  })
    }

    pub fn c377(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ object  { b = { foo = 1.5 }
        é  { long_identifier_of_many_bytes = 2147483647
        match "{}" "${var.a}" "a" { a = "true"
        _u = "{}" } }
        bar_baz = { long_identifier_of_many_bytes = [null, "{}", 0], _u = ["a", null] "a" = false }
        value = null } })
    }

    pub fn c378(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(self  { elems bar_baz { elems = false } })
    }

    pub fn c379(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(é é { bar_baz = { (s.clone()) = "true" }
        a self "a" "-" { value (format!("l{u}")) { _u = ((u, &s))
        elems = (e)
        long_identifier_of_many_bytes = { elems = (u), } }
        a  { bar_baz = { é = [w, (e), null, true,] object = t(151), "[1, 2]" = (i) }
        key = null }
        bar_baz "//" 'c' (s.clone()) { (format!("k{u}")) = (f)
        object = { (format!("k{u}")) = "q\"x", -8 = "{}", (st) = "tab\tnew\nline", ("lit") = true }
        match = 9i64
        long_identifier_of_many_bytes = "q\"x" } } })
    }

    pub fn c380(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ self 'c' { (id) = null
        _u = (t(152)) } })
    }

    pub fn c381(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(foo "%{ if x }" { _u "back\\slash" { _u _u bar_baz long_identifier_of_many_bytes { x1 = true }
        b  { x1 = 0.25
        self = "${var.a}" } }
        object = "#"
        b "tab\tnew\nline" match "" { match = ["back\\slash", 0, "%{ if x }"]
        _u type "a" resource { copy = "back\\slash"
        x1 = ""
        a = { -8 = -3, }
        self = { type = [null, -3], } } } })
    }

    pub fn c382(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(resource 'c' "a.b" copy { resource "%{ if x }" { key = (i)
        a (format!("l{u}")) (format!("l{u}")) "1" { _u = (!b) }
        null = ('c') }
        match = { (st) = ["${var.a}",], -8 = { _u = 0, }, ("lit") = (u / 2 + 1), "{}" = w, }
        object = { ("lit") = 0 } })
    }

    pub fn c383(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ (id) "//" { (id) = e
        resource = s } })
    }

    pub fn c384(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(foo "tab\tnew\nline" { (format!("k{u}")) = ["-"]
        b  { resource = { (st) = 42 value = { }, }
        key  { _u = (st) }
        é  { bar_baz = null }
        null = b }
        x1 = (t(153)) })
    }

    pub fn c385(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(resource "$${x}" "a" "[1, 2]" { match = "q\"x"
        null = "#" })
    }

    pub fn c386(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ match  {  } })
    }

    pub fn c387(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(x1 b { _u = [[18446744073709551615u64], [(t(154)), (e)], (format!("{s}-{u}")), (w)]
        x1 = e })
    }

    pub fn c388(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!(bar_baz value self "[1, 2]" { elems = []
        null = "//"
        value  { (format!("k{u}")) = (Some(st)) } })
    }

    pub fn c389(x: &crate::Vars) -> hcl::Block {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::block!({ foo  { elems = []
        copy = false
        b "-" "q\"x" { value = ["1", (s)]
        é = "back\\slash" }
        foo = ["-",] } })
    }

    pub fn c390(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ a = [[{ a = true, -8 = null, }, ["%{ if x }"],], { 7 = "{}", match = [null], -8 = [true, "1", "//", null] foo = "" }, ["$${x}", { self = -3, }, [0.25], "true",], -3] })
    }

    pub fn c391(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(a = true)
    }

    pub fn c392(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(b = { (format!("k{u}")) = [] })
    }

    pub fn c393(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ value = [["null", { copy = "1", type = "${var.a}" }, "a",], 2147483647] })
    }

    pub fn c394(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(key = (t(155)))
    }

    pub fn c395(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(match = (t(156)))
    }

    pub fn c396(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ long_identifier_of_many_bytes = ["%%"] })
    }

    pub fn c397(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(b = null)
    }

    pub fn c398(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(value = true)
    }

    pub fn c399(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ match = [{ "$${x}" = ["", null,] },] })
    }

    pub fn c400(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(resource = Some(st))
    }

    pub fn c401(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = 2147483647)
    }

    pub fn c402(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ (id) = true })
    }

    pub fn c403(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(null = null)
    }

    pub fn c404(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(a = [[[], [-3], null]])
    }

    pub fn c405(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ (format!("k{u}")) = true })
    }

    pub fn c406(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(value = -3)
    }

    pub fn c407(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = -3)
    }

    pub fn c408(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ (format!("k{u}")) = (f) })
    }

    pub fn c409(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = { (st) = { "a" = [(t(157)),] }, type = { }, "tab\tnew\nline" = { (st) = "back\\slash" "b c" = 1.5, }, ("lit") = [(t(158))], })
    }

    pub fn c410(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(foo = true)
    }

    pub fn c411(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ é = { "-" = o foo = [(t(159)), null, (t(160)), [s,],] type = { "//" = t(161), ("lit") = 18446744073709551615u64 value = { }, (u) = [], }, long_identifier_of_many_bytes = -3, } })
    }

    pub fn c412(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(self = { 'c' = s.len() as u64, })
    }

    pub fn c413(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(é = { })
    }

    pub fn c414(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ bar_baz = (t(162)) })
    }

    pub fn c415(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = [])
    }

    pub fn c416(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = [[{ }, { -8 = "" }, "é日本😀",]])
    }

    pub fn c417(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ é = { 7 = false, "%%" = { _u = [1.5] }, (st) = false, } })
    }

    pub fn c418(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(match = (u, &s))
    }

    pub fn c419(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = [{ "%{ if x }" = [], (s.clone()) = -3, _u = (i), }, [], { (e) = [(o), (u), (t(163)),], long_identifier_of_many_bytes = -3, 'c' = { (e) = 2147483647 }, }])
    }

    pub fn c420(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ object = w })
    }

    pub fn c421(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(_u = [{ 7 = [true, 0, (format!("{s}-{u}")), t(164)], },])
    }

    pub fn c422(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!((format!("k{u}")) = [])
    }

    pub fn c423(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ (format!("k{u}")) = [('c')] })
    }

    pub fn c424(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(bar_baz = [{ }])
    }

    pub fn c425(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(bar_baz = (format!("{s}-{u}")))
    }

    pub fn c426(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ self = (u, &s) })
    }

    pub fn c427(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(object = ((u, &s)))
    }

    pub fn c428(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!(object = ["b c", [[true, null, "${var.a}", "null",]], [[false]]])
    }

    pub fn c429(x: &crate::Vars) -> hcl::Attribute {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::attribute!({ match = { bar_baz = -3, "$${x}" = "-", "1" = "${var.a}", value = { } } })
    }

    pub fn c430(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ null = { x1 = "#" } })
    }

    pub fn c431(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(b "" object { match = (t(165))
        resource (format!("l{u}")) { a = (b)
        resource = (t(166))
        match = [(s.len() as u64),] } })
    }

    pub fn c432(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(null = null)
    }

    pub fn c433(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ elems "[1, 2]" {  } })
    }

    pub fn c434(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(a = { self = "back\\slash", })
    }

    pub fn c435(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(b resource match "#" {  })
    }

    pub fn c436(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ copy = { 7 = true elems = { a = "1" } } })
    }

    pub fn c437(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(é "${var.a}" 'c' "a.b" { (format!("k{u}")) = l
        (id) = { (format!("k{u}")) = { b = (o), }, -8 = "a" elems = [(u / 2 + 1), t(167), (vec![i, 1])], if = false, } })
    }

    pub fn c438(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(match = "q\"x")
    }

    pub fn c439(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ resource "tab\tnew\nline" "q\"x" { x1 = []
        self copy "1" long_identifier_of_many_bytes { null = "true"
        _u = "a.b" }
        copy = false
        a = [-3, -3, null, -3,] } })
    }

    pub fn c440(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(long_identifier_of_many_bytes = [{ (format!("k{u}")) = u / 2 + 1, }, { -8 = "-", b = w }, null])
    }

    pub fn c441(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(resource "{}" { match = "a"
        resource = b })
    }

    pub fn c442(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ object = { } })
    }

    pub fn c443(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!((id) "$${x}" { resource = 7u8 })
    }

    pub fn c444(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(type = false)
    }

    pub fn c445(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ bar_baz  { foo = [[-3, (o), (e), (Some(st)),],]
        a = (t(169)) } })
    }

    pub fn c446(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!((format!("k{u}")) = (f))
    }

    pub fn c447(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(value "é日本😀" "q\"x" { bar_baz key { value = "$${x}"
        _u = 0.25 }
        foo = "//"
        match "%%" { bar_baz = [{ if = -3, 7 = null "é日本😀" = null }, -3, -3]
        resource = false }
        type "a" { key = "-"
        b = [[42, null, -3,], [null, false], [false],]
        long_identifier_of_many_bytes = [-3]
        object = "${var.a}" } })
    }

    pub fn c448(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ x1 = [{ 7 = null }, ["%{ if x }", -3, "tab\tnew\nline", null], { 7 = true "${var.a}" = "a" }] })
    }

    pub fn c449(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(elems match "b c" { (format!("k{u}")) = (t(170))
        (format!("k{u}")) = { 'c' = { -8 = (t(171)) "back\\slash" = -3, (u) = (u / 2 + 1) "//" = null }, "a" = [f, 2147483647], } })
    }

    pub fn c450(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(bar_baz = 42)
    }

    pub fn c451(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ b  { (id) "b c" { x1 = "back\\slash"
        copy = (t(172))
        (id) = (t(173)) }
        value = [(t(174))]
        value  { value = [null, b]
        (id) = { }
        match = [{ foo = false, },] } } })
    }

    pub fn c452(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(é = e)
    }

    pub fn c453(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(copy key "q\"x" "a.b" { bar_baz "-" "a" "" { match = false
        _u = 0.25
        copy = 1.5 } })
    }

    pub fn c454(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ resource = { (format!("k{u}")) = [] } })
    }

    pub fn c455(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(a (s.clone()) "-" { match = (s)
        (format!("k{u}")) = [18446744073709551615u64, [s.len() as u64], (format!("{s}-{u}")), { object = (st), b = format!("{s}-{u}"), "-" = "1" },]
        object = [format!("{s}-{u}"), (u, &s)] })
    }

    pub fn c456(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(object = (o))
    }

    pub fn c457(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!({ (id)  { é "a" { bar_baz = [[((u, &s)), true], st, { (format!("k{u}")) = "#" }, { if = (Some(st)) },]
        (id) = [f, u / 2 + 1, 2147483647, 2147483647,] }
        (format!("k{u}")) = u } })
    }

    pub fn c458(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!((format!("k{u}")) = { true = t(175), })
    }

    pub fn c459(x: &crate::Vars) -> hcl::Structure {
        let crate::Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
        hcl::structure!(resource  { resource = { b = [] value = { ("lit") = (s), }, "q\"x" = [(t(176))] "//" = { (format!("k{u}")) = (w) } }
        b  { long_identifier_of_many_bytes = w
        (format!("k{u}")) = (vec![i, 1])
        key = i } })
    }
}

fn c0(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c0(x), obj(vec![(K::Expression(E::String("é日本😀".to_string())), obj(vec![(K::Expression(E::Number(Number::from(7))), E::Number(Number::from(u)))])), (K::Identifier(ident("true")), obj(vec![(K::Expression(E::Number(Number::from(-8))), we.clone()), (K::Expression(E::Number(Number::from(7))), E::Number(Number::from(18446744073709551615u64))), (K::Identifier(ident("b")), E::Array(vec![E::String("${var.a}".to_string())])), (K::Expression(E::String("é日本😀".to_string())), E::Array(vec![E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), E::Number(Number::from(9i64)), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]), E::Number(Number::from(1))]))])), (K::Expression(E::String("lit".to_string())), obj(vec![(K::Expression(E::String("lit".to_string())), E::Bool(b)), (K::Expression(E::String(s.clone())), obj(vec![(K::Expression(E::String(s.clone())), E::String(s.clone()))]))]))]), None, &[1])
}

fn c1(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c1(x), obj(vec![(K::Identifier(ident("b")), obj(vec![(K::Expression(E::String("a.b".to_string())), obj(vec![(K::Identifier(ident("_u")), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Expression(E::String("$${x}".to_string())), E::Number(Number::from(i))), (K::Expression(E::String("b c".to_string())), E::Null)]))]))]), None, &[])
}

fn c2(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c2(x), obj(vec![]), Some("{ }"), &[])
}

fn c3(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c3(x), E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(7))), E::Array(vec![E::String("#".to_string()), E::String("back\\slash".to_string()), E::Number(Number::from(42)), E::Number(Number::from(-3))]))]), obj(vec![(K::Identifier(ident("copy")), E::Number(Number::from(42))), (K::Identifier(ident("long_identifier_of_many_bytes")), E::String("//".to_string())), (K::Expression(E::Number(Number::from(7))), E::Number(Number::from(42)))]), E::Array(vec![E::String("-".to_string())]), E::Array(vec![obj(vec![])])]), Some("[{ 7 = [\"#\", \"back\\\\slash\", 42, -3], }, { copy = 42\n long_identifier_of_many_bytes = \"//\"\n 7 = 42, }, [\"-\",], [{ },]]"), &[])
}

fn c4(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c4(x), obj(vec![(K::Expression(E::String(st.to_string())), E::Array(vec![E::Null, obj(vec![]), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())]))]), None, &[])
}

fn c5(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c5(x), E::Array(vec![E::Array(vec![E::Array(vec![E::Number(Number::from(-3))]), E::Number(Number::from(-3)), E::Array(vec![E::Number(Number::from(-3)), E::String("${var.a}".to_string()), E::Bool(false), E::Number(Number::from(0))]), obj(vec![])]), E::Array(vec![obj(vec![(K::Identifier(ident("_u")), E::String("{}".to_string())), (K::Identifier(ident("null")), E::Bool(true)), (K::Identifier(ident("if")), E::Number(Number::from_f64(0.25).unwrap())), (K::Identifier(ident("foo")), E::String("é日本😀".to_string()))])]), E::Number(Number::from_f64(1.5).unwrap()), E::Number(Number::from_f64(1.5).unwrap())]), None, &[])
}

fn c6(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c6(x), E::Array(vec![E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Null)]), obj(vec![(K::Expression(E::String("$${x}".to_string())), E::Bool(false)), (K::Expression(E::String("//".to_string())), E::String("b c".to_string())), (K::Identifier(ident("value")), E::Bool(false))]), obj(vec![(K::Identifier(ident("_u")), E::String("[1, 2]".to_string())), (K::Expression(E::Number(Number::from(-8))), E::String("[1, 2]".to_string())), (K::Identifier(ident("match")), E::Number(Number::from_f64(1.5).unwrap()))])]), E::Number(Number::from(2147483647))]), None, &[])
}

fn c7(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c7(x), E::Null, Some("null"), &[])
}

fn c8(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c8(x), E::Array(vec![]), Some("[]"), &[])
}

fn c9(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c9(x), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]), None, &[])
}

fn c10(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c10(x), obj(vec![(K::Expression(E::String("null".to_string())), E::Bool(false)), (K::Expression(E::String("q\"x".to_string())), E::Array(vec![])), (K::Expression(E::String("%{ if x }".to_string())), E::Array(vec![E::Number(Number::from_f64(f).unwrap()), E::Bool(false), E::Number(Number::from_f64(0.25).unwrap()), E::Number(Number::from(2))])), (K::Expression(e.clone()), E::Number(Number::from(-3)))]), None, &[2])
}

fn c11(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c11(x), obj(vec![]), Some("{ }"), &[])
}

fn c12(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c12(x), E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(-8))), E::String("$${x}".to_string()))]), E::Number(Number::from(0)), E::Number(Number::from(2147483647))]), None, &[])
}

fn c13(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c13(x), E::String("{}".to_string()), None, &[])
}

fn c14(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c14(x), E::String("tab\tnew\nline".to_string()), Some("\"tab\\tnew\\nline\""), &[])
}

fn c15(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c15(x), E::Null, Some("null"), &[])
}

fn c16(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c16(x), E::Array(vec![E::Array(vec![E::Array(vec![we.clone(), E::Bool(!b), E::Number(Number::from_f64(1.5).unwrap())])]), E::Bool(false), obj(vec![(K::Expression(E::String("{}".to_string())), obj(vec![(K::Expression(E::String("lit".to_string())), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])), (K::Identifier(ident("match")), E::Number(Number::from(42))), (K::Expression(E::String("1".to_string())), E::Number(Number::from(3)))])), (K::Identifier(ident("elems")), obj(vec![])), (K::Expression(E::String("%{ if x }".to_string())), E::Array(vec![])), (K::Identifier(ident("b")), obj(vec![(K::Expression(E::String(st.to_string())), E::Null)]))])]), None, &[3])
}

fn c17(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c17(x), E::String("a.b".to_string()), Some("\"a.b\""), &[])
}

fn c18(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c18(x), E::Array(vec![]), Some("[]"), &[])
}

fn c19(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c19(x), E::String(s.clone()), None, &[])
}

fn c20(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c20(x), E::Array(vec![obj(vec![])]), Some("[{ }]"), &[])
}

fn c21(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c21(x), obj(vec![(K::Expression(E::String("é日本😀".to_string())), E::Array(vec![E::Array(vec![o.map_or(E::Null, |n| E::Number(Number::from(n)))]), obj(vec![]), E::Number(Number::from(9i64))]))]), None, &[])
}

fn c22(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c22(x), E::String("1".to_string()), Some("\"1\""), &[])
}

fn c23(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c23(x), E::Array(vec![E::String("tab\tnew\nline".to_string()), obj(vec![(K::Expression(E::String("//".to_string())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Expression(E::String(st.to_string())), obj(vec![(K::Identifier(ident("x1")), E::Number(Number::from_f64(f).unwrap())), (K::Expression(e.clone()), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]))])), (K::Expression(E::String("%%".to_string())), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]))])]), None, &[])
}

fn c24(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c24(x), E::Array(vec![E::Number(Number::from(4))]), None, &[4])
}

fn c25(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c25(x), obj(vec![(K::Expression(E::String("lit".to_string())), obj(vec![]))]), None, &[])
}

fn c26(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c26(x), E::Number(Number::from(5)), None, &[5])
}

fn c27(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c27(x), E::Array(vec![E::Array(vec![E::Number(Number::from(u)), obj(vec![(K::Expression(E::String("b c".to_string())), E::Number(Number::from(6))), (K::Expression(E::String("c".to_string())), E::Number(Number::from(7))), (K::Expression(E::Number(Number::from(7))), e.clone()), (K::Identifier(ident("true")), E::Number(Number::from(i)))]), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), obj(vec![(K::Expression(E::Number(Number::from(7))), E::String(s.clone())), (K::Expression(E::String("c".to_string())), e.clone()), (K::Expression(E::String("$${x}".to_string())), E::Number(Number::from(18446744073709551615u64))), (K::Expression(E::String("null".to_string())), E::Number(Number::from(42)))])])]), None, &[6, 7])
}

fn c28(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c28(x), E::Number(Number::from(-3)), Some("-3"), &[])
}

fn c29(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c29(x), E::Array(vec![E::Null, E::String("-".to_string())]), Some("[null, \"-\",]"), &[])
}

fn c30(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c30(x), E::String("tab\tnew\nline".to_string()), Some("\"tab\\tnew\\nline\""), &[])
}

fn c31(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c31(x), E::Array(vec![E::Null]), Some("[null]"), &[])
}

fn c32(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c32(x), obj(vec![(K::Identifier(ident("a")), E::Bool(false))]), Some("{ a = false, }"), &[])
}

fn c33(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c33(x), obj(vec![(K::Expression(E::String("c".to_string())), obj(vec![(K::Expression(E::String("lit".to_string())), E::Number(Number::from(8))), (K::Expression(E::String(s.clone())), E::Bool(true))])), (K::Expression(E::String("1".to_string())), E::Number(Number::from(9))), (K::Expression(E::String("back\\slash".to_string())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Identifier(ident("type")), E::Null)]), None, &[8, 9])
}

fn c34(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c34(x), E::Array(vec![]), Some("[]"), &[])
}

fn c35(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c35(x), E::Array(vec![E::Array(vec![obj(vec![(K::Expression(E::String("[1, 2]".to_string())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(7u8))), (K::Expression(E::String(st.to_string())), E::Number(Number::from(10)))]), E::Number(Number::from_f64(1.5).unwrap()), E::Array(vec![E::Number(Number::from(u / 2 + 1)), E::Number(Number::from(i)), E::String("{}".to_string()), E::Number(Number::from(-3))])]), E::Number(Number::from(i)), E::Array(vec![obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Number(Number::from(-3)))])]), obj(vec![(K::Expression(E::String(format!("k{u}"))), we.clone()), (K::Expression(E::String("[1, 2]".to_string())), obj(vec![(K::Expression(E::String("tab\tnew\nline".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String(s.clone())), E::Number(Number::from(u))), (K::Expression(E::Number(Number::from(u))), E::Number(Number::from_f64(0.25).unwrap())), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(-3)))]))])]), None, &[10])
}

fn c36(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c36(x), E::Array(vec![E::Array(vec![E::String(s.clone()), E::Array(vec![E::String(s.clone())])]), obj(vec![]), obj(vec![(K::Identifier(ident("match")), E::Array(vec![E::Bool(!b), E::Bool(true)]))]), E::Array(vec![E::Array(vec![E::String(st.to_string()), E::Number(Number::from(7u8)), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])]), E::Array(vec![E::Number(Number::from(0))]), obj(vec![(K::Expression(E::String("q\"x".to_string())), E::String("".to_string())), (K::Identifier(ident("resource")), E::Number(Number::from(-3)))])])]), None, &[])
}

fn c37(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c37(x), E::Array(vec![]), Some("[]"), &[])
}

fn c38(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c38(x), E::String("true".to_string()), Some("\"true\""), &[])
}

fn c39(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c39(x), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(if b { 1u64 } else { 2 })))]), None, &[])
}

fn c40(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c40(x), E::Array(vec![obj(vec![(K::Identifier(ident("a")), E::String("1".to_string())), (K::Identifier(ident("x1")), E::Array(vec![E::Number(Number::from(11)), E::Bool(true), we.clone()])), (K::Expression(E::Number(Number::from(u))), obj(vec![(K::Expression(E::String("b c".to_string())), E::Number(Number::from(i))), (K::Expression(E::String(format!("k{u}"))), E::String(st.to_string())), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(i)))])), (K::Expression(E::Number(Number::from(7))), E::Array(vec![E::Number(Number::from_f64(1.5).unwrap()), E::Number(Number::from(i))]))]), E::Number(Number::from(12)), E::Array(vec![E::Number(Number::from(13)), E::Array(vec![E::Number(Number::from(14)), E::Number(Number::from(18446744073709551615u64))]), obj(vec![]), E::Array(vec![E::Bool(!b), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]), e.clone(), E::Number(Number::from(15))])]), E::Array(vec![obj(vec![(K::Expression(E::String("é日本😀".to_string())), E::Number(Number::from(18446744073709551615u64)))]), E::Array(vec![])])]), None, &[11, 12, 13, 14, 15])
}

fn c41(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c41(x), E::String("".to_string()), Some("\"\""), &[])
}

fn c42(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c42(x), E::Number(Number::from(-3)), Some("-3"), &[])
}

fn c43(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c43(x), E::Number(Number::from(u)), None, &[])
}

fn c44(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c44(x), E::Array(vec![E::Null, E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), E::Number(Number::from(9i64)), E::Number(Number::from_f64(1.5).unwrap())]), None, &[])
}

fn c45(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c45(x), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Array(vec![E::Array(vec![E::Bool(b), E::Bool(true)]), E::Array(vec![E::Number(Number::from(2147483647)), E::Bool(false), E::String("//".to_string())]), obj(vec![(K::Expression(E::String("q\"x".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String(s.clone())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Expression(E::String(st.to_string())), E::String("$${x}".to_string()))]), E::Number(Number::from_f64(f).unwrap())]))]), None, &[])
}

fn c46(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c46(x), obj(vec![(K::Expression(E::String("".to_string())), E::Number(Number::from(u))), (K::Expression(E::String("lit".to_string())), we.clone()), (K::Expression(E::String(format!("k{u}"))), E::Array(vec![]))]), None, &[])
}

fn c47(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c47(x), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), None, &[])
}

fn c48(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c48(x), obj(vec![(K::Expression(E::Number(Number::from(-8))), obj(vec![(K::Identifier(ident("bar_baz")), E::String("1".to_string())), (K::Expression(E::Number(Number::from(-8))), E::Null), (K::Identifier(ident("key")), E::Bool(false))])), (K::Identifier(ident("a")), E::Number(Number::from(-3))), (K::Expression(E::String("back\\slash".to_string())), E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Bool(false)), (K::Expression(E::Number(Number::from(7))), E::Bool(false))]), obj(vec![])]))]), Some("{ -8 = { bar_baz = \"1\", -8 = null\n key = false\n }\n a = -3, \"back\\\\slash\" = [{ -8 = false, 7 = false\n }, { },], }"), &[])
}

fn c49(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c49(x), E::Bool(false), Some("false"), &[])
}

fn c50(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c50(x), E::Number(Number::from(-3)), Some("-3"), &[])
}

fn c51(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c51(x), obj(vec![(K::Expression(E::String("a".to_string())), E::Number(Number::from(16)))]), None, &[16])
}

fn c52(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c52(x), E::Number(Number::from(u / 2 + 1)), None, &[])
}

fn c53(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c53(x), obj(vec![(K::Expression(E::String(st.to_string())), E::Number(Number::from(7u8)))]), None, &[])
}

fn c54(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c54(x), E::Number(Number::from(-3)), Some("-3"), &[])
}

fn c55(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c55(x), E::Array(vec![obj(vec![(K::Identifier(ident("type")), obj(vec![(K::Identifier(ident("foo")), E::String("{}".to_string()))])), (K::Expression(E::String("back\\slash".to_string())), obj(vec![(K::Expression(E::String("back\\slash".to_string())), E::Number(Number::from(2147483647)))])), (K::Expression(E::String("q\"x".to_string())), E::Bool(true))])]), None, &[])
}

fn c56(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c56(x), E::Bool(false), Some("false"), &[])
}

fn c57(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c57(x), E::String("c".to_string()), None, &[])
}

fn c58(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c58(x), E::Array(vec![E::Array(vec![obj(vec![(K::Identifier(ident("bar_baz")), E::String("a".to_string()))]), E::Number(Number::from(42))]), E::Null, E::Null, E::Array(vec![E::Bool(false), obj(vec![(K::Expression(E::Number(Number::from(7))), E::String("$${x}".to_string()))]), obj(vec![(K::Expression(E::Number(Number::from(7))), E::Number(Number::from(0))), (K::Expression(E::String("#".to_string())), E::String("[1, 2]".to_string()))])])]), None, &[])
}

fn c59(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c59(x), E::Array(vec![E::Number(Number::from(17)), E::Array(vec![obj(vec![(K::Identifier(ident("if")), E::String("$${x}".to_string()))]), E::Array(vec![E::Number(Number::from(18))]), obj(vec![(K::Expression(E::String("b c".to_string())), E::Null), (K::Expression(E::String("null".to_string())), E::Number(Number::from(-3))), (K::Identifier(ident("elems")), E::Number(Number::from(42))), (K::Expression(E::String(st.to_string())), E::Number(Number::from(19)))]), obj(vec![(K::Expression(E::String("lit".to_string())), E::Number(Number::from(20))), (K::Identifier(ident("value")), E::Null), (K::Identifier(ident("é")), E::Number(Number::from(9i64))), (K::Expression(E::Number(Number::from(7))), E::Number(Number::from(0)))])]), E::Array(vec![]), E::Number(Number::from(42))]), None, &[17, 18, 19, 20])
}

fn c60(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c60(x), obj(vec![(K::Expression(E::String(s.clone())), obj(vec![])), (K::Identifier(ident("key")), obj(vec![(K::Expression(E::String("tab\tnew\nline".to_string())), e.clone())])), (K::Expression(E::String("true".to_string())), E::Number(Number::from(i)))]), None, &[])
}

fn c61(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c61(x), E::Array(vec![E::Number(Number::from_f64(f).unwrap()), E::Bool(b), E::Bool(b)]), None, &[])
}

fn c62(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c62(x), E::Number(Number::from_f64(f).unwrap()), None, &[])
}

fn c63(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c63(x), obj(vec![]), Some("{ }"), &[])
}

fn c64(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c64(x), E::Array(vec![E::Array(vec![E::Array(vec![E::Number(Number::from(-3))]), E::Bool(b), obj(vec![(K::Expression(E::String("[1, 2]".to_string())), E::Bool(false)), (K::Expression(E::String("#".to_string())), E::Number(Number::from(21)))])])]), None, &[21])
}

fn c65(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c65(x), obj(vec![]), Some("{ }"), &[])
}

fn c66(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c66(x), E::Array(vec![E::Array(vec![E::Array(vec![E::String("$${x}".to_string()), E::Number(Number::from(if b { 1u64 } else { 2 })), E::Bool(b), E::Number(Number::from(42))]), E::String("${var.a}".to_string()), E::String("1".to_string()), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(u))), E::String("//".to_string())), (K::Expression(E::String("${var.a}".to_string())), o.map_or(E::Null, |n| E::Number(Number::from(n))))])]), obj(vec![(K::Expression(E::Number(Number::from(7))), E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 })), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())])])), (K::Expression(E::Number(Number::from(u))), obj(vec![(K::Expression(E::String("a.b".to_string())), E::Number(Number::from(u / 2 + 1))), (K::Identifier(ident("x1")), E::Number(Number::from(22))), (K::Expression(E::String("b c".to_string())), E::Number(Number::from(23)))])), (K::Identifier(ident("copy")), obj(vec![(K::Expression(E::String("c".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String("${var.a}".to_string())), E::Number(Number::from(u))), (K::Identifier(ident("long_identifier_of_many_bytes")), E::String("c".to_string()))])), (K::Expression(E::String(format!("k{u}"))), obj(vec![(K::Identifier(ident("match")), E::Number(Number::from(24))), (K::Expression(E::String("true".to_string())), e.clone())]))])]), None, &[22, 23, 24])
}

fn c67(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c67(x), obj(vec![(K::Expression(e.clone()), E::String("%%".to_string())), (K::Expression(E::String(format!("k{u}"))), E::Number(Number::from(25)))]), None, &[25])
}

fn c68(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c68(x), E::Array(vec![obj(vec![(K::Identifier(ident("resource")), obj(vec![(K::Expression(E::String("{}".to_string())), E::String("null".to_string())), (K::Identifier(ident("copy")), E::Null)])), (K::Expression(E::String("back\\slash".to_string())), E::Array(vec![E::Number(Number::from(0))])), (K::Expression(E::String("-".to_string())), E::Array(vec![E::String("a.b".to_string()), E::Bool(true), E::String("//".to_string()), E::String("tab\tnew\nline".to_string())])), (K::Expression(E::Number(Number::from(-8))), E::Array(vec![E::Bool(false)]))]), E::Array(vec![E::Null, obj(vec![(K::Identifier(ident("null")), E::Number(Number::from(2147483647))), (K::Expression(E::Number(Number::from(-8))), E::String("a.b".to_string()))])])]), None, &[])
}

fn c69(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c69(x), E::Number(Number::from_f64(1.5).unwrap()), Some("1.5"), &[])
}

fn c70(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c70(x), E::Array(vec![E::Array(vec![E::Number(Number::from(42))]), E::Array(vec![E::Array(vec![E::String("b c".to_string()), E::String("$${x}".to_string())]), E::Array(vec![E::String("#".to_string()), E::Number(Number::from(0)), E::String("%%".to_string())]), obj(vec![(K::Expression(E::String("//".to_string())), E::Null)])]), E::String("null".to_string())]), None, &[])
}

fn c71(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c71(x), E::String("-".to_string()), Some("\"-\""), &[])
}

fn c72(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c72(x), E::Array(vec![E::String("c".to_string()), E::String("%{ if x }".to_string())]), None, &[])
}

fn c73(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c73(x), obj(vec![(K::Expression(E::String(st.to_string())), E::Array(vec![E::Array(vec![E::Number(Number::from(26)), E::Number(Number::from(9i64))]), E::String(st.to_string()), E::Array(vec![])]))]), None, &[26])
}

fn c74(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c74(x), obj(vec![(K::Expression(E::String("q\"x".to_string())), E::Array(vec![E::Null]))]), Some("{ \"q\\\"x\" = [null,]\n }"), &[])
}

fn c75(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c75(x), E::Number(Number::from_f64(0.25).unwrap()), Some("0.25"), &[])
}

fn c76(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c76(x), E::Array(vec![E::Array(vec![obj(vec![]), E::Array(vec![E::Number(Number::from(7u8))]), obj(vec![(K::Expression(E::String(s.clone())), E::String(s.clone()))]), E::Number(Number::from(0))])]), None, &[])
}

fn c77(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c77(x), E::Array(vec![obj(vec![(K::Expression(E::String("#".to_string())), E::Array(vec![])), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(-3)))]), E::String("tab\tnew\nline".to_string())]), Some("[{ \"#\" = [], -8 = -3, }, \"tab\\tnew\\nline\"]"), &[])
}

fn c78(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c78(x), E::Number(Number::from(-3)), Some("-3"), &[])
}

fn c79(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c79(x), E::Number(Number::from(27)), None, &[27])
}

fn c80(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c80(x), E::Number(Number::from(28)), None, &[28])
}

fn c81(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c81(x), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), None, &[])
}

fn c82(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c82(x), E::Array(vec![E::Number(Number::from(-3)), E::String("%%".to_string()), obj(vec![(K::Identifier(ident("key")), obj(vec![(K::Expression(E::String("a".to_string())), E::String("1".to_string()))])), (K::Identifier(ident("object")), obj(vec![(K::Expression(E::String("q\"x".to_string())), E::String("%%".to_string()))]))]), E::Bool(true)]), Some("[-3, \"%%\", { key = { \"a\" = \"1\"\n }, object = { \"q\\\"x\" = \"%%\"\n }, }, true]"), &[])
}

fn c83(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c83(x), obj(vec![(K::Expression(E::String(s.clone())), E::String(st.to_string()))]), None, &[])
}

fn c84(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c84(x), E::String("#".to_string()), Some("\"#\""), &[])
}

fn c85(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c85(x), obj(vec![(K::Expression(E::String("lit".to_string())), E::String(st.to_string())), (K::Expression(E::String(s.clone())), obj(vec![]))]), None, &[])
}

fn c86(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c86(x), E::Number(Number::from_f64(0.25).unwrap()), Some("0.25"), &[])
}

fn c87(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c87(x), obj(vec![]), Some("{ }"), &[])
}

fn c88(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c88(x), E::Array(vec![obj(vec![(K::Expression(E::String("true".to_string())), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(7))), E::String("-".to_string())), (K::Identifier(ident("a")), we.clone()), (K::Expression(e.clone()), obj(vec![(K::Expression(E::String("lit".to_string())), e.clone()), (K::Identifier(ident("null")), E::Number(Number::from(i))), (K::Expression(E::String("q\"x".to_string())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()))]))]), obj(vec![(K::Expression(E::String("#".to_string())), E::Number(Number::from(29))), (K::Expression(E::String("tab\tnew\nline".to_string())), E::Array(vec![e.clone()]))]), obj(vec![]), E::Number(Number::from(u / 2 + 1))]), None, &[29])
}

fn c89(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c89(x), obj(vec![(K::Identifier(ident("type")), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Identifier(ident("x1")), E::Array(vec![obj(vec![(K::Expression(E::String("a".to_string())), E::Number(Number::from(-3))), (K::Expression(E::String("b c".to_string())), E::String("tab\tnew\nline".to_string())), (K::Expression(E::String("".to_string())), E::Bool(true)), (K::Identifier(ident("é")), E::String(s.clone()))]), obj(vec![]), obj(vec![]), E::Array(vec![e.clone(), E::Number(Number::from(if b { 1u64 } else { 2 })), E::String("1".to_string()), E::Number(Number::from(i))])])), (K::Expression(E::String("{}".to_string())), E::Number(Number::from(30))), (K::Expression(E::String("".to_string())), obj(vec![(K::Expression(E::String("a.b".to_string())), obj(vec![(K::Expression(E::String("-".to_string())), E::Number(Number::from_f64(f).unwrap()))]))]))]), None, &[30])
}

fn c90(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c90(x), E::Bool(false), Some("false"), &[])
}

fn c91(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c91(x), E::Number(Number::from(18446744073709551615u64)), None, &[])
}

fn c92(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c92(x), E::Array(vec![E::String("${var.a}".to_string())]), None, &[])
}

fn c93(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c93(x), obj(vec![(K::Expression(E::String(st.to_string())), E::String(st.to_string()))]), None, &[])
}

fn c94(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c94(x), obj(vec![(K::Expression(E::String("a".to_string())), E::Bool(b)), (K::Expression(E::String("#".to_string())), E::Number(Number::from(0))), (K::Identifier(ident("foo")), E::Bool(false)), (K::Expression(E::String("%{ if x }".to_string())), E::Array(vec![E::Array(vec![E::Number(Number::from(u)), e.clone(), E::Number(Number::from(s.len() as u64))]), E::String("tab\tnew\nline".to_string())]))]), None, &[])
}

fn c95(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c95(x), obj(vec![]), Some("{ }"), &[])
}

fn c96(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c96(x), E::String("#".to_string()), Some("\"#\""), &[])
}

fn c97(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c97(x), E::Array(vec![E::Array(vec![E::Array(vec![E::String(st.to_string()), E::Number(Number::from(31)), E::Number(Number::from(0)), E::String("$${x}".to_string())])]), E::Array(vec![obj(vec![(K::Expression(E::String("back\\slash".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String(st.to_string())), E::Number(Number::from(7u8)))])]), E::Number(Number::from(-3))]), None, &[31])
}

fn c98(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c98(x), E::Array(vec![E::Null]), Some("[null,]"), &[])
}

fn c99(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c99(x), E::Array(vec![]), Some("[]"), &[])
}

fn c100(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c100(x), obj(vec![]), Some("{ }"), &[])
}

fn c101(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c101(x), E::Array(vec![E::String("null".to_string()), E::String("%%".to_string()), E::Number(Number::from_f64(0.25).unwrap()), E::String("{}".to_string())]), None, &[])
}

fn c102(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c102(x), E::Array(vec![E::Array(vec![E::Number(Number::from_f64(1.5).unwrap()), E::Number(Number::from_f64(0.25).unwrap())])]), Some("[[1.5, 0.25]]"), &[])
}

fn c103(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c103(x), obj(vec![]), Some("{ }"), &[])
}

fn c104(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c104(x), E::Bool(true), Some("true"), &[])
}

fn c105(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c105(x), E::Array(vec![]), Some("[]"), &[])
}

fn c106(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c106(x), E::Number(Number::from(-3)), Some("-3"), &[])
}

fn c107(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c107(x), obj(vec![(K::Identifier(ident("a")), E::String("b c".to_string())), (K::Expression(E::String("tab\tnew\nline".to_string())), E::Null)]), Some("{ a = \"b c\"\n \"tab\\tnew\\nline\" = null, }"), &[])
}

fn c108(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c108(x), E::String("tab\tnew\nline".to_string()), Some("\"tab\\tnew\\nline\""), &[])
}

fn c109(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c109(x), obj(vec![(K::Expression(E::Number(Number::from(-8))), obj(vec![(K::Expression(E::Number(Number::from(7))), E::Null)])), (K::Identifier(ident("value")), E::Number(Number::from(2147483647))), (K::Identifier(ident("é")), obj(vec![(K::Identifier(ident("self")), obj(vec![(K::Identifier(ident("copy")), E::Null)])), (K::Expression(E::String("q\"x".to_string())), E::String("-".to_string()))]))]), Some("{ -8 = { 7 = null\n }\n value = 2147483647\n é = { self = { copy = null\n }\n \"q\\\"x\" = \"-\"\n }\n }"), &[])
}

fn c110(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c110(x), E::Array(vec![]), Some("[]"), &[])
}

fn c111(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c111(x), E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 })), E::Bool(true), E::Array(vec![obj(vec![(K::Expression(E::String("{}".to_string())), E::String("${var.a}".to_string()))])]), E::Array(vec![E::Number(Number::from(s.len() as u64)), E::Array(vec![E::String("#".to_string()), E::Number(Number::from(32)), E::Number(Number::from(33))])])]), None, &[32, 33])
}

fn c112(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c112(x), obj(vec![]), Some("{ }"), &[])
}

fn c113(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c113(x), obj(vec![]), Some("{ }"), &[])
}

fn c114(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c114(x), E::Array(vec![obj(vec![(K::Expression(e.clone()), E::Array(vec![e.clone()])), (K::Expression(E::String("null".to_string())), E::Array(vec![E::Number(Number::from(i))])), (K::Identifier(ident("b")), obj(vec![(K::Identifier(ident("_u")), E::String(format!("{s}-{u}"))), (K::Identifier(ident("match")), E::Null)])), (K::Expression(E::String("lit".to_string())), E::String(st.to_string()))]), E::Number(Number::from(i)), E::Array(vec![obj(vec![(K::Expression(e.clone()), E::Number(Number::from(u / 2 + 1))), (K::Expression(E::String("lit".to_string())), we.clone()), (K::Expression(E::Number(Number::from(7))), E::String("%{ if x }".to_string())), (K::Expression(E::String(s.clone())), E::String("true".to_string()))]), E::Array(vec![E::Number(Number::from_f64(f).unwrap()), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), E::Number(Number::from(34)), E::Number(Number::from(35))]), E::Number(Number::from(9i64))])]), None, &[34, 35])
}

fn c115(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c115(x), obj(vec![(K::Expression(E::Number(Number::from(7))), obj(vec![])), (K::Identifier(ident("b")), E::String("{}".to_string())), (K::Expression(E::String("-".to_string())), E::Number(Number::from(2147483647))), (K::Expression(E::String("true".to_string())), E::Number(Number::from(-3)))]), None, &[])
}

fn c116(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c116(x), E::Number(Number::from_f64(f).unwrap()), None, &[])
}

fn c117(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c117(x), obj(vec![(K::Expression(E::String("[1, 2]".to_string())), E::Bool(b)), (K::Expression(E::String("lit".to_string())), obj(vec![(K::Expression(E::Number(Number::from(u))), E::Array(vec![E::Number(Number::from(u / 2 + 1))])), (K::Expression(e.clone()), E::Array(vec![]))]))]), None, &[])
}

fn c118(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c118(x), E::Array(vec![E::Number(Number::from_f64(0.25).unwrap()), E::Array(vec![E::String("c".to_string())]), obj(vec![(K::Expression(E::String(s.clone())), E::Array(vec![E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::String(st.to_string()), E::Number(Number::from(s.len() as u64)), E::Number(Number::from(36))]))])]), None, &[36])
}

fn c119(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c119(x), E::Null, Some("null"), &[])
}

fn c120(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c120(x), obj(vec![(K::Expression(E::String("//".to_string())), E::String("c".to_string())), (K::Expression(E::String(st.to_string())), E::Bool(b)), (K::Identifier(ident("true")), E::Array(vec![E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), obj(vec![]), E::Bool(b), obj(vec![(K::Expression(E::String("[1, 2]".to_string())), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])), (K::Expression(E::String("${var.a}".to_string())), E::Number(Number::from(u)))])])), (K::Expression(E::String("q\"x".to_string())), E::Array(vec![E::Array(vec![E::Null, E::Number(Number::from_f64(0.25).unwrap()), E::Number(Number::from(9i64)), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())])])]))]), None, &[])
}

fn c121(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c121(x), E::Bool(true), Some("true"), &[])
}

fn c122(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c122(x), obj(vec![(K::Identifier(ident("elems")), obj(vec![]))]), Some("{ elems = { }\n }"), &[])
}

fn c123(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c123(x), obj(vec![(K::Expression(E::String(s.clone())), E::String("back\\slash".to_string())), (K::Identifier(ident("é")), obj(vec![(K::Expression(E::String(s.clone())), E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 }))])), (K::Expression(E::Number(Number::from(u))), E::String(s.clone()))]))]), None, &[])
}

fn c124(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c124(x), E::Number(Number::from(37)), None, &[37])
}

fn c125(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c125(x), E::String("#".to_string()), Some("\"#\""), &[])
}

fn c126(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c126(x), E::Bool(false), Some("false"), &[])
}

fn c127(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c127(x), E::Number(Number::from_f64(0.25).unwrap()), Some("0.25"), &[])
}

fn c128(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c128(x), E::String("b c".to_string()), Some("\"b c\""), &[])
}

fn c129(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("expression", || bare::c129(x), obj(vec![(K::Expression(E::Number(Number::from(u))), E::Array(vec![E::String("c".to_string())])), (K::Expression(e.clone()), obj(vec![]))]), None, &[])
}

fn c130(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c130(x), vobj(vec![]), Some("{ }"), &[])
}

fn c131(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c131(x), V::Number(Number::from(-3)), Some("-3"), &[])
}

fn c132(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c132(x), V::Number(Number::from(-3)), Some("-3"), &[])
}

fn c133(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c133(x), V::Bool(false), Some("false"), &[])
}

fn c134(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c134(x), vobj(vec![(st.to_string(), V::Array(vec![V::Array(vec![]), V::Array(vec![V::Number(Number::from(i)), V::Number(Number::from(1))]), V::Array(vec![w.clone()]), V::Array(vec![V::Number(Number::from(u)), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect())])]))]), None, &[])
}

fn c135(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c135(x), V::String("#".to_string()), Some("\"#\""), &[])
}

fn c136(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c136(x), vobj(vec![("%{ if x }".to_string(), vobj(vec![("é日本😀".to_string(), V::Number(Number::from(42))), ("${var.a}".to_string(), V::Null), ("#".to_string(), vobj(vec![("q\"x".to_string(), V::Bool(true)), ("%%".to_string(), V::Number(Number::from(-3))), ("_u".to_string(), V::Bool(false))]))])), ("object".to_string(), vobj(vec![("".to_string(), vobj(vec![("$${x}".to_string(), V::Bool(true)), ("value".to_string(), V::String("true".to_string()))])), ("é日本😀".to_string(), vobj(vec![("a".to_string(), V::String("true".to_string()))]))])), ("a".to_string(), V::String("#".to_string()))]), None, &[])
}

fn c137(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c137(x), V::Number(Number::from(-3)), Some("-3"), &[])
}

fn c138(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c138(x), V::Null, Some("null"), &[])
}

fn c139(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c139(x), vobj(vec![("copy".to_string(), V::Array(vec![V::Array(vec![V::Null, V::Bool(false), V::Bool(true)])])), ("match".to_string(), V::Number(Number::from(-3))), ("true".to_string(), vobj(vec![("%%".to_string(), V::Bool(false))]))]), Some("{ copy = [[null, false, true]], match = -3, \"true\" = { \"%%\" = false, }\n }"), &[])
}

fn c140(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c140(x), V::Number(Number::from(38)), None, &[38])
}

fn c141(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c141(x), vobj(vec![("back\\slash".to_string(), V::Number(Number::from(18446744073709551615u64))), ("-".to_string(), V::Array(vec![V::Bool(true), V::Number(Number::from(7u8))]))]), None, &[])
}

fn c142(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c142(x), V::Array(vec![V::Array(vec![w.clone()]), V::String("é日本😀".to_string()), vobj(vec![])]), None, &[])
}

fn c143(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c143(x), vobj(vec![(s.clone(), vobj(vec![("a.b".to_string(), V::Number(Number::from(18446744073709551615u64))), ("a".to_string(), vobj(vec![("if".to_string(), V::Number(Number::from_f64(1.5).unwrap())), ("back\\slash".to_string(), V::Number(Number::from(18446744073709551615u64))), (st.to_string(), V::Null), ("lit".to_string(), V::String("$${x}".to_string()))])), ("//".to_string(), V::String("//".to_string()))])), ("elems".to_string(), V::Array(vec![V::Number(Number::from(u)), V::String(s.clone())])), (st.to_string(), V::Array(vec![vobj(vec![("a.b".to_string(), V::Null)])])), ("a".to_string(), V::Array(vec![vobj(vec![("a".to_string(), V::String(st.to_string()))])]))]), None, &[])
}

fn c144(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c144(x), vobj(vec![("elems".to_string(), V::String("true".to_string())), ("-".to_string(), vobj(vec![("null".to_string(), vobj(vec![("a".to_string(), V::String("".to_string())), ("object".to_string(), V::Null), ("bar_baz".to_string(), V::String("$${x}".to_string()))]))])), ("type".to_string(), vobj(vec![("tab\tnew\nline".to_string(), vobj(vec![("-".to_string(), V::Number(Number::from(-3)))]))]))]), None, &[])
}

fn c145(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c145(x), V::Number(Number::from(39)), None, &[39])
}

fn c146(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c146(x), V::Number(Number::from(u / 2 + 1)), None, &[])
}

fn c147(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c147(x), V::Number(Number::from(40)), None, &[40])
}

fn c148(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c148(x), V::Array(vec![vobj(vec![(st.to_string(), V::Number(Number::from_f64(f).unwrap())), ("match".to_string(), V::String("b c".to_string())), (s.clone(), vobj(vec![("{}".to_string(), V::Number(Number::from(-3))), (format!("k{u}"), V::String(st.to_string())), ("a".to_string(), V::String("%{ if x }".to_string())), (st.to_string(), V::Number(Number::from(if b { 1u64 } else { 2 })))]))])]), None, &[])
}

fn c149(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c149(x), vobj(vec![(s.clone(), V::Number(Number::from(41)))]), None, &[41])
}

fn c150(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c150(x), V::Null, Some("null"), &[])
}

fn c151(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c151(x), vobj(vec![("if".to_string(), V::String("a".to_string())), ("back\\slash".to_string(), vobj(vec![(s.clone(), vobj(vec![("lit".to_string(), V::Number(Number::from(7u8)))]))]))]), None, &[])
}

fn c152(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c152(x), vobj(vec![("%%".to_string(), V::Number(Number::from_f64(0.25).unwrap())), ("if".to_string(), vobj(vec![("$${x}".to_string(), V::Bool(true)), ("null".to_string(), vobj(vec![("_u".to_string(), V::Null), ("long_identifier_of_many_bytes".to_string(), V::Number(Number::from(2147483647)))])), ("{}".to_string(), vobj(vec![("value".to_string(), V::Bool(false))])), ("-".to_string(), V::Array(vec![V::Number(Number::from(-3)), V::String("{}".to_string()), V::String("b c".to_string()), V::Number(Number::from(42))]))]))]), None, &[])
}

fn c153(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c153(x), V::String("a".to_string()), Some("\"a\""), &[])
}

fn c154(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c154(x), V::Null, Some("null"), &[])
}

fn c155(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c155(x), V::String(s.clone()), None, &[])
}

fn c156(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c156(x), V::Array(vec![vobj(vec![("value".to_string(), V::Number(Number::from(42)))])]), None, &[42])
}

fn c157(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c157(x), vobj(vec![]), Some("{ }"), &[])
}

fn c158(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c158(x), V::Array(vec![V::Array(vec![V::Array(vec![])]), V::Array(vec![V::String(st.to_string()), vobj(vec![("null".to_string(), V::Number(Number::from(43)))])]), w.clone(), vobj(vec![("%%".to_string(), V::String(s.clone())), ("lit".to_string(), vobj(vec![(s.clone(), V::Bool(!b)), ("bar_baz".to_string(), V::Bool(!b)), ("lit".to_string(), V::Bool(false)), ("foo".to_string(), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect()))])), (st.to_string(), o.map_or(V::Null, |n| V::Number(Number::from(n))))])]), None, &[43])
}

fn c159(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c159(x), V::String("a.b".to_string()), Some("\"a.b\""), &[])
}

fn c160(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c160(x), V::String("".to_string()), Some("\"\""), &[])
}

fn c161(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c161(x), V::Bool(b), None, &[])
}

fn c162(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c162(x), V::String(st.to_string()), None, &[])
}

fn c163(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c163(x), vobj(vec![]), Some("{ }"), &[])
}

fn c164(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c164(x), V::Array(vec![]), Some("[]"), &[])
}

fn c165(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c165(x), vobj(vec![(st.to_string(), vobj(vec![("type".to_string(), V::Number(Number::from(44))), ("key".to_string(), V::Array(vec![V::Number(Number::from(-3))])), ("a".to_string(), V::Number(Number::from(45))), (format!("k{u}"), vobj(vec![("${var.a}".to_string(), V::Number(Number::from(7u8)))]))]))]), None, &[44, 45])
}

fn c166(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c166(x), V::Array(vec![V::Bool(false)]), Some("[false,]"), &[])
}

fn c167(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c167(x), V::String("é日本😀".to_string()), Some("\"é日本😀\""), &[])
}

fn c168(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c168(x), V::Null, Some("null"), &[])
}

fn c169(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c169(x), vobj(vec![("é日本😀".to_string(), vobj(vec![(st.to_string(), V::Array(vec![V::String(s.clone()), V::Bool(false)])), ("a".to_string(), vobj(vec![(st.to_string(), V::Bool(b)), ("#".to_string(), V::Number(Number::from(9i64))), ("copy".to_string(), V::Bool(b))])), (s.clone(), V::Array(vec![]))]))]), None, &[])
}

fn c170(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c170(x), vobj(vec![("lit".to_string(), V::Array(vec![])), (st.to_string(), V::Number(Number::from_f64(1.5).unwrap())), ("value".to_string(), V::Array(vec![V::String(s.clone())]))]), None, &[])
}

fn c171(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c171(x), V::Array(vec![V::Array(vec![V::Number(Number::from(42)), V::Bool(false), V::Array(vec![V::Number(Number::from_f64(1.5).unwrap()), V::Bool(true), V::Null]), vobj(vec![("b c".to_string(), V::String("q\"x".to_string())), ("null".to_string(), V::Null), ("foo".to_string(), V::Number(Number::from_f64(1.5).unwrap())), ("elems".to_string(), V::String("%%".to_string()))])]), vobj(vec![("b c".to_string(), vobj(vec![("b c".to_string(), V::String("null".to_string())), ("$${x}".to_string(), V::Number(Number::from(2147483647)))]))])]), None, &[])
}

fn c172(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c172(x), V::Number(Number::from(46)), None, &[46])
}

fn c173(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c173(x), V::Number(Number::from(47)), None, &[47])
}

fn c174(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c174(x), V::Number(Number::from(0)), Some("0"), &[])
}

fn c175(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c175(x), vobj(vec![("a.b".to_string(), V::Array(vec![])), ("//".to_string(), o.map_or(V::Null, |n| V::Number(Number::from(n)))), ("foo".to_string(), V::Bool(b))]), None, &[])
}

fn c176(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c176(x), vobj(vec![("long_identifier_of_many_bytes".to_string(), V::String("1".to_string())), ("é日本😀".to_string(), vobj(vec![("b c".to_string(), vobj(vec![("object".to_string(), V::String("1".to_string()))]))])), ("bar_baz".to_string(), V::Null), ("%%".to_string(), V::Array(vec![]))]), Some("{ long_identifier_of_many_bytes = \"1\", \"é日本😀\" = { \"b c\" = { object = \"1\"\n }, }, bar_baz = null\n \"%%\" = []\n }"), &[])
}

fn c177(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c177(x), V::Array(vec![V::Number(Number::from(48))]), None, &[48])
}

fn c178(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c178(x), V::Number(Number::from(-3)), Some("-3"), &[])
}

fn c179(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c179(x), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect()), None, &[])
}

fn c180(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c180(x), V::Number(Number::from_f64(f).unwrap()), None, &[])
}

fn c181(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c181(x), vobj(vec![("back\\slash".to_string(), V::Array(vec![vobj(vec![("null".to_string(), V::Number(Number::from(-3)))])])), ("$${x}".to_string(), vobj(vec![])), ("copy".to_string(), V::Array(vec![V::Array(vec![V::Number(Number::from(-3))])])), ("true".to_string(), V::Array(vec![vobj(vec![]), V::String("%%".to_string()), V::Array(vec![])]))]), None, &[])
}

fn c182(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c182(x), vobj(vec![("$${x}".to_string(), V::Array(vec![V::Array(vec![V::Number(Number::from(7u8))])])), (format!("k{u}"), V::Array(vec![V::Number(Number::from(49))]))]), None, &[49])
}

fn c183(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c183(x), vobj(vec![("x1".to_string(), V::Number(Number::from(-3))), ("é".to_string(), V::Number(Number::from(42))), ("elems".to_string(), V::Array(vec![vobj(vec![("[1, 2]".to_string(), V::String("".to_string()))])])), ("#".to_string(), V::Array(vec![V::Null, V::Bool(false), vobj(vec![("key".to_string(), V::Null), ("null".to_string(), V::Number(Number::from(-3))), ("a".to_string(), V::String("q\"x".to_string())), ("resource".to_string(), V::Bool(true))])]))]), Some("{ x1 = -3, é = 42\n elems = [{ \"[1, 2]\" = \"\"\n }]\n \"#\" = [null, false, { key = null, \"null\" = -3, \"a\" = \"q\\\"x\", resource = true\n }], }"), &[])
}

fn c184(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c184(x), V::String("true".to_string()), Some("\"true\""), &[])
}

fn c185(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c185(x), V::Array(vec![V::String("back\\slash".to_string()), V::Array(vec![V::Bool(true)])]), Some("[\"back\\\\slash\", [true]]"), &[])
}

fn c186(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c186(x), V::Number(Number::from(0)), Some("0"), &[])
}

fn c187(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c187(x), V::Number(Number::from(42)), Some("42"), &[])
}

fn c188(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c188(x), V::Array(vec![vobj(vec![("a".to_string(), V::Array(vec![V::String("//".to_string()), V::Number(Number::from(0))]))])]), Some("[{ \"a\" = [\"//\", 0], },]"), &[])
}

fn c189(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c189(x), vobj(vec![("resource".to_string(), V::Array(vec![])), ("%{ if x }".to_string(), V::Null), ("a.b".to_string(), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect()))]), None, &[])
}

fn c190(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c190(x), V::String(format!("{s}-{u}")), None, &[])
}

fn c191(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c191(x), V::Number(Number::from(50)), None, &[50])
}

fn c192(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c192(x), vobj(vec![]), Some("{ }"), &[])
}

fn c193(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c193(x), V::String("//".to_string()), Some("\"//\""), &[])
}

fn c194(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c194(x), V::String(format!("{s}-{u}")), None, &[])
}

fn c195(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c195(x), V::Number(Number::from(51)), None, &[51])
}

fn c196(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c196(x), V::String("b c".to_string()), Some("\"b c\""), &[])
}

fn c197(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c197(x), vobj(vec![("a".to_string(), V::Array(vec![V::Array(vec![V::String("null".to_string()), V::Number(Number::from(-3))])]))]), Some("{ \"a\" = [[\"null\", -3]], }"), &[])
}

fn c198(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c198(x), V::Array(vec![V::Array(vec![V::Array(vec![V::Null]), V::String("%{ if x }".to_string())]), V::Number(Number::from(-3)), V::Array(vec![V::String("tab\tnew\nline".to_string()), V::Array(vec![]), V::Number(Number::from(0)), V::Array(vec![V::Null])]), vobj(vec![("value".to_string(), V::String("q\"x".to_string())), ("bar_baz".to_string(), V::Array(vec![V::Number(Number::from(-3))])), ("self".to_string(), V::String("1".to_string()))])]), None, &[])
}

fn c199(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c199(x), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect()), None, &[])
}

fn c200(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c200(x), V::Array(vec![V::Array(vec![V::String("back\\slash".to_string())]), V::Array(vec![vobj(vec![("foo".to_string(), V::String("${var.a}".to_string())), (st.to_string(), V::Bool(b)), ("[1, 2]".to_string(), V::Number(Number::from(0))), ("tab\tnew\nline".to_string(), V::Number(Number::from(-3)))]), vobj(vec![("true".to_string(), V::Bool(true)), ("a.b".to_string(), V::Null), ("%{ if x }".to_string(), V::Number(Number::from(-3)))]), V::Array(vec![w.clone()]), vobj(vec![("type".to_string(), V::Bool(true))])]), V::Array(vec![V::String(st.to_string())])]), None, &[])
}

fn c201(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c201(x), V::Array(vec![V::Number(Number::from(u / 2 + 1)), V::Number(Number::from(u / 2 + 1)), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect())]), None, &[])
}

fn c202(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c202(x), V::Number(Number::from(52)), None, &[52])
}

fn c203(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c203(x), vobj(vec![]), Some("{ }"), &[])
}

fn c204(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c204(x), V::Number(Number::from(-3)), Some("-3"), &[])
}

fn c205(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c205(x), V::Array(vec![]), Some("[]"), &[])
}

fn c206(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c206(x), V::String("a".to_string()), Some("\"a\""), &[])
}

fn c207(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c207(x), vobj(vec![("_u".to_string(), V::Number(Number::from_f64(f).unwrap()))]), None, &[])
}

fn c208(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c208(x), vobj(vec![("self".to_string(), V::Array(vec![vobj(vec![("[1, 2]".to_string(), V::Number(Number::from(-3)))]), V::String("{}".to_string()), V::Bool(false)]))]), None, &[])
}

fn c209(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c209(x), vobj(vec![("elems".to_string(), V::Null)]), Some("{ elems = null\n }"), &[])
}

fn c210(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c210(x), vobj(vec![("elems".to_string(), V::Number(Number::from(53)))]), None, &[53])
}

fn c211(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c211(x), vobj(vec![("lit".to_string(), V::Array(vec![V::Array(vec![V::Number(Number::from(-3))])])), ("foo".to_string(), V::Bool(b))]), None, &[])
}

fn c212(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c212(x), V::Array(vec![V::Array(vec![V::Number(Number::from(u)), V::String(s.clone())]), V::Array(vec![vobj(vec![("key".to_string(), V::String("é日本😀".to_string())), ("elems".to_string(), V::String("1".to_string())), ("bar_baz".to_string(), V::String("1".to_string()))]), V::Array(vec![V::Number(Number::from(42)), V::Bool(true), V::String(format!("{s}-{u}"))]), V::Array(vec![V::Number(Number::from_f64(f).unwrap())])])]), None, &[])
}

fn c213(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c213(x), vobj(vec![("type".to_string(), V::Array(vec![])), ("resource".to_string(), V::Array(vec![V::Number(Number::from(54)), V::Array(vec![V::String(s.clone()), o.map_or(V::Null, |n| V::Number(Number::from(n))), V::Number(Number::from(55))]), V::Array(vec![V::Number(Number::from(i))])])), (format!("k{u}"), vobj(vec![("{}".to_string(), V::Null)])), ("$${x}".to_string(), V::Array(vec![V::Number(Number::from(if b { 1u64 } else { 2 })), V::Number(Number::from_f64(f).unwrap())]))]), None, &[54, 55])
}

fn c214(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c214(x), V::Number(Number::from(-3)), Some("-3"), &[])
}

fn c215(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c215(x), V::Number(Number::from(56)), None, &[56])
}

fn c216(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c216(x), V::Array(vec![V::Number(Number::from(57))]), None, &[57])
}

fn c217(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c217(x), V::Array(vec![vobj(vec![("foo".to_string(), vobj(vec![])), ("x1".to_string(), V::String("é日本😀".to_string())), ("copy".to_string(), vobj(vec![("null".to_string(), V::String("null".to_string())), ("1".to_string(), V::String("#".to_string()))]))])]), Some("[{ foo = { }, x1 = \"é日本😀\"\n copy = { \"null\" = \"null\"\n \"1\" = \"#\"\n }, }]"), &[])
}

fn c218(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c218(x), V::Array(vec![]), Some("[]"), &[])
}

fn c219(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c219(x), V::Array(vec![]), Some("[]"), &[])
}

fn c220(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c220(x), V::Number(Number::from_f64(f).unwrap()), None, &[])
}

fn c221(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c221(x), vobj(vec![]), Some("{ }"), &[])
}

fn c222(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c222(x), vobj(vec![(format!("k{u}"), V::String(s.clone())), ("resource".to_string(), V::Number(Number::from_f64(0.25).unwrap())), ("object".to_string(), V::Number(Number::from(58)))]), None, &[58])
}

fn c223(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c223(x), V::String("null".to_string()), Some("\"null\""), &[])
}

fn c224(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c224(x), V::Number(Number::from(7u8)), None, &[])
}

fn c225(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c225(x), vobj(vec![("lit".to_string(), vobj(vec![("value".to_string(), V::String(st.to_string()))])), ("-".to_string(), V::String("-".to_string())), ("elems".to_string(), V::Number(Number::from(59)))]), None, &[59])
}

fn c226(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c226(x), V::Array(vec![vobj(vec![(s.clone(), V::Array(vec![V::Number(Number::from(u)), V::String(s.clone())])), ("copy".to_string(), vobj(vec![("back\\slash".to_string(), V::String(s.clone())), ("_u".to_string(), V::Array(l.iter().map(|n| V::Number(Number::from(*n))).collect()))])), ("1".to_string(), V::String(st.to_string()))])]), None, &[])
}

fn c227(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c227(x), V::Null, Some("null"), &[])
}

fn c228(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c228(x), V::Array(vec![V::Array(vec![V::Array(vec![V::Bool(false)])])]), Some("[[[false]]]"), &[])
}

fn c229(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c229(x), vobj(vec![("key".to_string(), vobj(vec![("long_identifier_of_many_bytes".to_string(), V::Array(vec![V::Number(Number::from(i)), V::Number(Number::from(9i64)), V::Number(Number::from(42))]))])), ("#".to_string(), vobj(vec![("a".to_string(), V::Array(vec![V::Number(Number::from(u))])), ("b c".to_string(), V::Array(vec![V::String(format!("{s}-{u}")), V::Bool(b), V::String("a.b".to_string())])), (format!("k{u}"), V::Array(vec![V::String("-".to_string()), w.clone(), V::Array(vec![V::Number(Number::from(u)), V::String(s.clone())]), V::Number(Number::from(9i64))]))]))]), None, &[])
}

fn c230(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c230(x), V::String(s.clone()), None, &[])
}

fn c231(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c231(x), vobj(vec![("if".to_string(), vobj(vec![("a.b".to_string(), V::Array(vec![V::Number(Number::from_f64(1.5).unwrap()), V::String("é日本😀".to_string()), V::Number(Number::from(-3)), V::String("[1, 2]".to_string())])), ("if".to_string(), V::String("true".to_string())), ("type".to_string(), V::String("[1, 2]".to_string())), ("resource".to_string(), vobj(vec![]))])), ("-".to_string(), V::Array(vec![vobj(vec![("".to_string(), V::String("#".to_string())), ("a".to_string(), V::Number(Number::from(2147483647)))])])), ("$${x}".to_string(), vobj(vec![("1".to_string(), vobj(vec![("é日本😀".to_string(), V::String("$${x}".to_string())), ("foo".to_string(), V::Number(Number::from(-3)))])), ("#".to_string(), vobj(vec![("q\"x".to_string(), V::Number(Number::from(-3))), ("%{ if x }".to_string(), V::Bool(true)), ("_u".to_string(), V::Bool(false))])), ("a".to_string(), vobj(vec![("%{ if x }".to_string(), V::String("#".to_string())), ("back\\slash".to_string(), V::Number(Number::from(-3)))]))])), ("b c".to_string(), vobj(vec![]))]), None, &[])
}

fn c232(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c232(x), V::Array(vec![V::Array(vec![])]), Some("[[]]"), &[])
}

fn c233(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c233(x), V::Array(vec![V::Number(Number::from(-3)), V::Bool(true)]), Some("[-3, true]"), &[])
}

fn c234(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c234(x), vobj(vec![(format!("k{u}"), V::String("null".to_string())), ("lit".to_string(), vobj(vec![("lit".to_string(), V::String("1".to_string())), (format!("k{u}"), vobj(vec![("true".to_string(), V::String("true".to_string())), ("x1".to_string(), V::String("q\"x".to_string())), (format!("k{u}"), V::Array(vec![V::Number(Number::from(i)), V::Number(Number::from(1))]))]))]))]), None, &[])
}

fn c235(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c235(x), V::Array(vec![V::Number(Number::from(i)), V::Number(Number::from(1))]), None, &[])
}

fn c236(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c236(x), V::Array(vec![V::Array(vec![V::Array(vec![V::String(s.clone()), V::Number(Number::from_f64(f).unwrap())]), vobj(vec![("$${x}".to_string(), V::Number(Number::from_f64(f).unwrap()))]), vobj(vec![]), V::Array(vec![V::Number(Number::from(s.len() as u64)), o.map_or(V::Null, |n| V::Number(Number::from(n)))])])]), None, &[])
}

fn c237(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c237(x), vobj(vec![("//".to_string(), V::Array(vec![V::Number(Number::from(i)), V::Number(Number::from(1))]))]), None, &[])
}

fn c238(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c238(x), V::Array(vec![V::Array(vec![])]), Some("[[]]"), &[])
}

fn c239(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("value", || bare::c239(x), vobj(vec![("#".to_string(), V::Number(Number::from(-3))), ("true".to_string(), V::Number(Number::from(-3))), ("%{ if x }".to_string(), V::Array(vec![V::Array(vec![V::Number(Number::from(0))]), V::Array(vec![V::String("%{ if x }".to_string())]), V::String("[1, 2]".to_string())])), ("bar_baz".to_string(), V::String("$${x}".to_string()))]), None, &[])
}

fn c240(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c240(x), bod(vec![Structure::Block(Block { identifier: ident("_u"), labels: vec![L::String("q\"x".to_string()), L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("elems"), expr: obj(vec![(K::Expression(E::String("q\"x".to_string())), E::String("null".to_string())), (K::Expression(E::Number(Number::from(7))), E::String("${var.a}".to_string())), (K::Identifier(ident("true")), E::Array(vec![E::Number(Number::from(42)), E::String("b c".to_string()), E::Number(Number::from(-3)), E::Number(Number::from(-3))])), (K::Expression(E::String("%%".to_string())), E::String("a".to_string()))]) })]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from_f64(1.5).unwrap()) })]), None, &[])
}

fn c241(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c241(x), bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::String("true".to_string()) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::String("é日本😀".to_string()) })]), Some("null = \"true\"\nb = \"é日本😀\"\n"), &[])
}

fn c242(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c242(x), bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String(s.clone()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Array(vec![E::Number(Number::from(u)), E::Number(Number::from(-3)), E::Number(Number::from(18446744073709551615u64)), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())]))]) })]), None, &[])
}

fn c243(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c243(x), bod(vec![]), Some(""), &[])
}

fn c244(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c244(x), bod(vec![Structure::Block(Block { identifier: ident("copy"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![L::Identifier(ident("bar_baz"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::String("true".to_string()) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Bool(!b) })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("$${x}".to_string()), L::Identifier(ident("key"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: E::String(s.clone()) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![]) })]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::String("null".to_string())), obj(vec![(K::Expression(E::String("é日本😀".to_string())), E::String("$${x}".to_string()))])), (K::Identifier(ident("self")), E::Null), (K::Expression(E::String("{}".to_string())), E::Null)]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: obj(vec![(K::Identifier(ident("object")), E::Number(Number::from_f64(0.25).unwrap())), (K::Expression(E::String(st.to_string())), E::Null), (K::Identifier(ident("long_identifier_of_many_bytes")), E::Number(Number::from(-3))), (K::Expression(E::String("a".to_string())), E::Number(Number::from(if b { 1u64 } else { 2 })))]) })]) })]), None, &[])
}

fn c245(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c245(x), bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(u))), E::String(st.to_string()))])]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::String("true".to_string()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![]) })]), None, &[])
}

fn c246(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c246(x), bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::String(st.to_string()) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![L::String(s.clone())], body: bod(vec![Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::Identifier(ident("_u")), L::String("q\"x".to_string()), L::String("true".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::Bool(false) })]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::String(format!("{s}-{u}")) })]) })]), None, &[])
}

fn c247(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c247(x), bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![L::String(format!("l{u}"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]) })]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![]) })]), None, &[])
}

fn c248(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c248(x), bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: we.clone() }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![]) })]), None, &[])
}

fn c249(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c249(x), bod(vec![]), Some(""), &[])
}

fn c250(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c250(x), bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Array(vec![we.clone(), E::Number(Number::from_f64(f).unwrap()), E::String("tab\tnew\nline".to_string())])), (K::Expression(E::String(format!("k{u}"))), obj(vec![(K::Expression(E::String(format!("k{u}"))), E::String("q\"x".to_string())), (K::Expression(E::String("null".to_string())), E::Number(Number::from(7u8))), (K::Identifier(ident("copy")), E::Bool(true)), (K::Expression(e.clone()), E::String(st.to_string()))]))]) })]), None, &[])
}

fn c251(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c251(x), bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![E::String("".to_string())]) })]), Some("elems = [\"\"]\n"), &[])
}

fn c252(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c252(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Number(Number::from(s.len() as u64)) }), Structure::Block(Block { identifier: ident("self"), labels: vec![L::String("a.b".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Number(Number::from(2147483647)) })]) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) })]) }), Structure::Block(Block { identifier: ident("self"), labels: vec![L::Identifier(ident("foo")), L::String(s.clone()), L::Identifier(ident("key"))], body: bod(vec![Structure::Block(Block { identifier: ident("elems"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String("$${x}".to_string()) }), Structure::Attribute(Attribute { key: ident(id), expr: we.clone() })]) })]) }), Structure::Block(Block { identifier: ident("é"), labels: vec![L::Identifier(ident("copy")), L::String("#".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::String(format!("{s}-{u}")) })]) }), Structure::Block(Block { identifier: ident("a"), labels: vec![L::String("a.b".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::String(format!("{s}-{u}")) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::String(format!("{s}-{u}")) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Number(Number::from(0)) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(vec![E::Array(vec![E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), e.clone()]), E::Array(vec![E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::Number(Number::from(18446744073709551615u64))]), E::Array(vec![E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), E::Bool(!b), E::String(st.to_string())]), E::Number(Number::from_f64(f).unwrap())]) })]) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(i)) })]) })]), None, &[])
}

fn c253(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c253(x), bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String(s.clone()), L::String("back\\slash".to_string()), L::String(format!("l{u}"))], body: bod(vec![Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Array(vec![o.map_or(E::Null, |n| E::Number(Number::from(n))), E::String("1".to_string()), E::String("b c".to_string()), E::Number(Number::from(u / 2 + 1))]) })]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Bool(!b) })]) }), Structure::Attribute(Attribute { key: ident("type"), expr: obj(vec![(K::Expression(E::String("true".to_string())), E::String(format!("{s}-{u}")))]) })]) }), Structure::Attribute(Attribute { key: ident("value"), expr: obj(vec![(K::Expression(e.clone()), E::Bool(false))]) })]), None, &[])
}

fn c254(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c254(x), bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![L::String("c".to_string()), L::String("%%".to_string()), L::Identifier(ident("_u"))], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: E::String(format!("{s}-{u}")) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![]) })]) })]), None, &[])
}

fn c255(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c255(x), bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: e.clone() }), Structure::Block(Block { identifier: ident("key"), labels: vec![L::String(st.to_string())], body: bod(vec![]) })]), None, &[])
}

fn c256(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c256(x), bod(vec![Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("null".to_string()), L::Identifier(ident("value")), L::String("1".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::String("back\\slash".to_string()), L::Identifier(ident("key")), L::String(format!("l{u}"))], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Null })]) })]), None, &[])
}

fn c257(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c257(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Bool(false) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("//".to_string())], body: bod(vec![]) })]), Some("long_identifier_of_many_bytes = false\nmatch \"//\" {\n}\n"), &[])
}

fn c258(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c258(x), bod(vec![]), Some(""), &[])
}

fn c259(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c259(x), bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![E::Number(Number::from(i)), E::Array(vec![e.clone(), E::Bool(false), E::Number(Number::from(62)), E::Bool(true)]), obj(vec![(K::Identifier(ident("key")), E::Number(Number::from_f64(1.5).unwrap()))])]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("a".to_string()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(u)) }), Structure::Block(Block { identifier: ident("object"), labels: vec![L::String(st.to_string()), L::String("{}".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(63)) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Bool(!b) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Bool(true) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::String("null".to_string()), e.clone(), E::String(st.to_string()), E::Bool(false)]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Array(vec![E::Number(Number::from_f64(0.25).unwrap()), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::Number(Number::from(-3))]), E::Array(vec![]), obj(vec![(K::Expression(E::Number(Number::from(7))), E::String("c".to_string()))]), E::Number(Number::from(65))]) })]) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::String(s.clone()) }), Structure::Block(Block { identifier: ident("value"), labels: vec![L::String("q\"x".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(u / 2 + 1)), E::Number(Number::from(u)), E::Number(Number::from(42)), E::Number(Number::from_f64(1.5).unwrap())]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Attribute(Attribute { key: ident("_u"), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("-".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Number(Number::from(u)))]) })]) })]) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("[1, 2]".to_string())], body: bod(vec![]) })]), None, &[62, 63, 65])
}

fn c260(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c260(x), bod(vec![]), Some(""), &[])
}

fn c261(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c261(x), bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Number(Number::from(2147483647)) })]) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Null })]), Some("a {\nb = 2147483647\n}\ntype = null\n"), &[])
}

fn c262(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c262(x), bod(vec![]), Some(""), &[])
}

fn c263(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c263(x), bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![L::String(s.clone()), L::String(st.to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("${var.a}".to_string()), L::Identifier(ident("bar_baz")), L::Identifier(ident("bar_baz"))], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![E::Array(vec![E::Bool(!b)]), obj(vec![(K::Expression(E::Number(Number::from(u))), E::String("c".to_string()))]), E::String(st.to_string())]) })]) })]), None, &[])
}

fn c264(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c264(x), bod(vec![Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("".to_string()), L::String("a.b".to_string()), L::Identifier(ident("type"))], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![L::String("b c".to_string()), L::Identifier(ident("resource"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: obj(vec![(K::Expression(E::String("-".to_string())), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])), (K::Expression(E::String("c".to_string())), obj(vec![(K::Expression(E::String(s.clone())), E::Number(Number::from(u / 2 + 1))), (K::Identifier(ident("a")), E::String("#".to_string())), (K::Identifier(ident("b")), E::String(format!("{s}-{u}"))), (K::Identifier(ident("value")), E::Null)])), (K::Expression(E::Number(Number::from(7))), obj(vec![(K::Identifier(ident("é")), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])), (K::Expression(E::String("$${x}".to_string())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Expression(E::String("{}".to_string())), E::Bool(!b))])), (K::Identifier(ident("key")), E::Number(Number::from(s.len() as u64)))]) })]) }), Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![]) })]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![(K::Expression(E::String("${var.a}".to_string())), E::Number(Number::from(if b { 1u64 } else { 2 }))), (K::Expression(E::String("back\\slash".to_string())), E::Bool(!b))]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::String("${var.a}".to_string()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String(s.clone()) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::Identifier(ident("self"))], body: bod(vec![Structure::Block(Block { identifier: ident("_u"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Number(Number::from(u / 2 + 1)) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String("b c".to_string()) })]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![L::String(st.to_string()), L::String("c".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from(42)) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), e.clone()), (K::Expression(E::String("lit".to_string())), E::String("b c".to_string())), (K::Expression(E::String(st.to_string())), E::Bool(!b))]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("foo"), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::String(s.clone())), (K::Expression(E::String("[1, 2]".to_string())), we.clone()), (K::Expression(E::Number(Number::from(u))), E::Number(Number::from(if b { 1u64 } else { 2 })))]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Number(Number::from_f64(0.25).unwrap()) })]) })]) })]) })]), None, &[])
}

fn c265(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c265(x), bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::String("".to_string()) })]), Some("foo = \"\"\n"), &[])
}

fn c266(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c266(x), bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![L::String("true".to_string()), L::Identifier(ident("elems"))], body: bod(vec![Structure::Block(Block { identifier: ident("copy"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("tab\tnew\nline".to_string()) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::Number(Number::from(42)) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Bool(true) })]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![E::Bool(true), E::String("back\\slash".to_string()), E::String("$${x}".to_string())]) })]), None, &[])
}

fn c267(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c267(x), bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: obj(vec![(K::Identifier(ident("copy")), E::Bool(b)), (K::Expression(E::String("#".to_string())), E::Null), (K::Expression(E::String("q\"x".to_string())), E::Null), (K::Expression(E::String("true".to_string())), E::Number(Number::from(u / 2 + 1)))]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::Array(vec![E::Bool(false), E::Number(Number::from(s.len() as u64)), E::Number(Number::from(u))]), obj(vec![(K::Expression(E::String("${var.a}".to_string())), E::Number(Number::from(68)))]), E::String("#".to_string()), E::Number(Number::from(u / 2 + 1))]) })]), None, &[68])
}

fn c268(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c268(x), bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: obj(vec![(K::Expression(E::String("a.b".to_string())), E::Number(Number::from(i))), (K::Expression(E::String(st.to_string())), E::Bool(b)), (K::Identifier(ident("b")), E::String("null".to_string()))]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(u / 2 + 1)) }), Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: e.clone() })]) })]), None, &[])
}

fn c269(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c269(x), bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(u / 2 + 1)) }), Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Bool(false) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("_u"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::Number(Number::from(9i64)) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![L::String("-".to_string()), L::String("$${x}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Bool(true) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String("tab\tnew\nline".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String("null".to_string()) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String("//".to_string()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: e.clone() })]) })]) })]) })]), None, &[])
}

fn c270(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c270(x), bod(vec![Structure::Block(Block { identifier: ident("b"), labels: vec![L::Identifier(ident("x1")), L::Identifier(ident("_u"))], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Null }), Structure::Block(Block { identifier: ident("type"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![E::Number(Number::from(-3))]) })]) })]) }), Structure::Attribute(Attribute { key: ident("b"), expr: obj(vec![(K::Identifier(ident("b")), E::Null), (K::Identifier(ident("copy")), E::Null), (K::Identifier(ident("é")), E::String("#".to_string())), (K::Expression(E::String("q\"x".to_string())), E::Number(Number::from(42)))]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Number(Number::from(2147483647)) })]), Some("b x1 _u {\n}\nx1 {\nkey = null\ntype {\nmatch = [-3,]\n}\n}\nb = { b = null, copy = null\n é = \"#\"\n \"q\\\"x\" = 42, }\nfoo = 2147483647\n"), &[])
}

fn c271(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c271(x), bod(vec![]), Some(""), &[])
}

fn c272(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c272(x), bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Identifier(ident("_u")), obj(vec![]))]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::String("null".to_string()) })]), Some("resource = { _u = { }, }\nvalue = \"null\"\n"), &[])
}

fn c273(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c273(x), bod(vec![Structure::Block(Block { identifier: ident("b"), labels: vec![L::Identifier(ident("self")), L::String("%%".to_string()), L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("a"), expr: E::Number(Number::from(9i64)) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("c".to_string())], body: bod(vec![]) })]) })]), None, &[])
}

fn c274(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c274(x), bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::String(s.clone()) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::String(st.to_string()) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String("é日本😀".to_string()) })]), None, &[])
}

fn c275(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c275(x), bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Null })]), Some("match = null\n"), &[])
}

fn c276(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c276(x), bod(vec![Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Identifier(ident("b")), E::Array(vec![e.clone()])), (K::Expression(E::Number(Number::from(u))), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(69))), (K::Identifier(ident("x1")), E::Number(Number::from(18446744073709551615u64)))]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("back\\slash".to_string()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![]) })]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::String("tab\tnew\nline".to_string()) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::String(format!("{s}-{u}")) })]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), E::Bool(false)), (K::Identifier(ident("foo")), E::String("${var.a}".to_string())), (K::Expression(E::String("//".to_string())), E::String("é日本😀".to_string()))]) })]), None, &[69])
}

fn c277(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c277(x), bod(vec![Structure::Block(Block { identifier: ident("value"), labels: vec![L::String("b c".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(u)) }), Structure::Block(Block { identifier: ident("é"), labels: vec![L::Identifier(ident("long_identifier_of_many_bytes")), L::String("tab\tnew\nline".to_string()), L::String(st.to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(E::String("q\"x".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Identifier(ident("long_identifier_of_many_bytes")), E::Number(Number::from(18446744073709551615u64))), (K::Identifier(ident("_u")), E::Number(Number::from(70))), (K::Expression(E::String(st.to_string())), E::Bool(true))]) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Bool(b) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![E::Number(Number::from(71))]) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::String("${var.a}".to_string()) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![L::String(st.to_string()), L::String(format!("l{u}")), L::Identifier(ident("type"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("%%".to_string()) })]) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("%{ if x }".to_string()), L::String("back\\slash".to_string()), L::String("$${x}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::Array(vec![])]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Number(Number::from(72)) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("//".to_string()), L::String("".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::String("#".to_string())]) }), Structure::Attribute(Attribute { key: ident("value"), expr: e.clone() }), Structure::Attribute(Attribute { key: ident(id), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("a"), expr: E::String("c".to_string()) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::String(st.to_string())]) })]) })]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Null })]), None, &[70, 71, 72])
}

fn c278(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c278(x), bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![L::String("-".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::Identifier(ident("foo"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: obj(vec![(K::Identifier(ident("true")), E::Number(Number::from(73))), (K::Expression(E::String(s.clone())), E::Null), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(-3))), (K::Identifier(ident("x1")), E::Number(Number::from(i)))]) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![]) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![L::String("a.b".to_string()), L::String(s.clone())], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: obj(vec![(K::Expression(E::String("null".to_string())), obj(vec![(K::Expression(E::String("[1, 2]".to_string())), we.clone()), (K::Identifier(ident("é")), E::Number(Number::from(74)))])), (K::Identifier(ident("x1")), e.clone())]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Null })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::Identifier(ident("type")), L::String("a.b".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: obj(vec![(K::Expression(E::String("lit".to_string())), obj(vec![(K::Expression(E::Number(Number::from(7))), E::String(st.to_string())), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(i))), (K::Expression(E::String("tab\tnew\nline".to_string())), E::String("$${x}".to_string())), (K::Expression(E::String(st.to_string())), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]))]))]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(18446744073709551615u64))])]) })]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from(9i64)) })]), None, &[73, 74])
}

fn c279(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c279(x), bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::Bool(true) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from(75)) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::Identifier(ident("self")), L::String("-".to_string())], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("[1, 2]".to_string()) })]), None, &[75])
}

fn c280(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c280(x), bod(vec![Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Number(Number::from(-3)))]) }), Structure::Block(Block { identifier: ident("key"), labels: vec![L::String(format!("l{u}")), L::Identifier(ident("copy"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: E::String(st.to_string()) })]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::String(st.to_string()) })]), None, &[])
}

fn c281(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c281(x), bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::String("//".to_string()) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Bool(true) }), Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: obj(vec![(K::Identifier(ident("type")), E::Number(Number::from(-3)))]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::String("1".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), obj(vec![(K::Expression(E::String("//".to_string())), E::Bool(false))]))]) })]), Some("type = \"//\"\nlong_identifier_of_many_bytes = true\na {\nx1 = { type = -3, }\nvalue = \"1\"\n}\nobject = { -8 = { \"//\" = false, }, }\n"), &[])
}

fn c282(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c282(x), bod(vec![]), Some(""), &[])
}

fn c283(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c283(x), bod(vec![Structure::Block(Block { identifier: ident("object"), labels: vec![L::String("null".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::String("//".to_string()), E::String("1".to_string())]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from(2147483647)) })]) })]), Some("object \"null\" {\nb = [\"//\", \"1\"]\nself = 2147483647\n}\n"), &[])
}

fn c284(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c284(x), bod(vec![]), Some(""), &[])
}

fn c285(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c285(x), bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String("%%".to_string()), L::String("back\\slash".to_string()), L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String("{}".to_string()) }), Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(E::String("é日本😀".to_string())), E::Number(Number::from(0))), (K::Expression(E::String("tab\tnew\nline".to_string())), E::String(s.clone())), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(if b { 1u64 } else { 2 }))), (K::Expression(E::String(s.clone())), E::Number(Number::from(s.len() as u64)))]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) })]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![L::String("q\"x".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::Identifier(ident("b")), L::Identifier(ident("é"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: E::Null }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(2147483647)) })]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Number(Number::from(i)) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("null".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from_f64(f).unwrap()) })]) }), Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![]) })]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![obj(vec![(K::Identifier(ident("long_identifier_of_many_bytes")), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Expression(E::String("tab\tnew\nline".to_string())), E::Bool(!b))]), E::Number(Number::from(if b { 1u64 } else { 2 })), E::Number(Number::from(76)), E::Number(Number::from(if b { 1u64 } else { 2 }))]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("%{ if x }".to_string()), L::String("#".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Array(vec![E::String("-".to_string()), E::Number(Number::from(42)), E::Number(Number::from(77)), E::Number(Number::from(78))]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![]) })]) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::String(s.clone()) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Array(vec![E::Number(Number::from(7u8))]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: E::Array(vec![obj(vec![(K::Identifier(ident("null")), E::Number(Number::from_f64(1.5).unwrap())), (K::Expression(E::Number(Number::from(7))), E::Number(Number::from(79)))])]) })]) })]), None, &[76, 77, 78, 79])
}

fn c286(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c286(x), bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: obj(vec![(K::Identifier(ident("self")), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from_f64(1.5).unwrap()))]) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) }), Structure::Block(Block { identifier: ident("b"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from(if b { 1u64 } else { 2 })) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::String("-".to_string()) })]) }), Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![]) })]) }), Structure::Attribute(Attribute { key: ident("null"), expr: we.clone() }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: we.clone() })]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![L::String("é日本😀".to_string()), L::Identifier(ident("match"))], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), obj(vec![(K::Identifier(ident("object")), E::Number(Number::from(80)))])), (K::Identifier(ident("match")), obj(vec![(K::Identifier(ident("elems")), E::Number(Number::from(i))), (K::Identifier(ident("copy")), E::Number(Number::from(2147483647))), (K::Identifier(ident("null")), E::String(st.to_string()))])), (K::Expression(E::String(s.clone())), E::Array(vec![E::Number(Number::from_f64(0.25).unwrap())])), (K::Expression(E::Number(Number::from(-8))), obj(vec![(K::Identifier(ident("é")), E::Number(Number::from(-3)))]))]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::String(format!("{s}-{u}")) }), Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Expression(E::String("#".to_string())), E::Number(Number::from(81))), (K::Expression(e.clone()), E::Number(Number::from(u))), (K::Expression(E::Number(Number::from(7))), e.clone()), (K::Identifier(ident("bar_baz")), E::Number(Number::from(82)))]) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::String(st.to_string()) })]), None, &[80, 81, 82])
}

fn c287(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c287(x), bod(vec![Structure::Block(Block { identifier: ident("x1"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::String(st.to_string()) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("${var.a}".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::Number(Number::from(-3)), e.clone(), o.map_or(E::Null, |n| E::Number(Number::from(n))), obj(vec![(K::Expression(E::String(format!("k{u}"))), E::String(format!("{s}-{u}"))), (K::Identifier(ident("object")), e.clone()), (K::Expression(E::String("c".to_string())), e.clone()), (K::Expression(E::String("1".to_string())), E::Null)])]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Bool(false) })]), None, &[])
}

fn c288(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c288(x), bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::String("b c".to_string()) }), Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Identifier(ident("match")), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from_f64(0.25).unwrap()), o.map_or(E::Null, |n| E::Number(Number::from(n)))]))]) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String(s.clone()), L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]) })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("a.b".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("type"), labels: vec![L::Identifier(ident("b")), L::String("q\"x".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(83)) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![E::String("c".to_string())]) })]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String(st.to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: we.clone() }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::String("-".to_string()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(18446744073709551615u64)) })]) })]) }), Structure::Attribute(Attribute { key: ident("value"), expr: e.clone() })]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![]) })]), None, &[83])
}

fn c289(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c289(x), bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String(format!("l{u}"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String(s.clone()) })]) })]), None, &[])
}

fn c290(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c290(x), bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String("#".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("-".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::Number(Number::from(i))]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Null })]) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String("back\\slash".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(vec![E::Number(Number::from(86))]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Bool(true) })]) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String("a.b".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::Number(Number::from(87)) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::String("{}".to_string())]) })]) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![L::String("b c".to_string()), L::String("${var.a}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(88)) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![E::Number(Number::from(89)), E::String("back\\slash".to_string())]) })]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Bool(b) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(90)) })]) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: we.clone() }), Structure::Block(Block { identifier: ident("object"), labels: vec![L::String("c".to_string()), L::String("1".to_string()), L::Identifier(ident("é"))], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::String("b c".to_string()) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Array(vec![o.map_or(E::Null, |n| E::Number(Number::from(n))), we.clone(), E::Number(Number::from(91)), E::Number(Number::from(9i64))]) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Array(vec![E::Bool(false), E::Array(vec![E::Number(Number::from(92)), E::String(s.clone())]), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]), E::String("1".to_string())]) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::Bool(true), E::Number(Number::from(i)), E::String(st.to_string())]) })]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Array(vec![E::Number(Number::from(93))]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Number(Number::from_f64(1.5).unwrap()) })]) }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::String("-".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: e.clone() }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: obj(vec![(K::Expression(E::String("%%".to_string())), E::Number(Number::from(94))), (K::Expression(E::String("[1, 2]".to_string())), E::Array(vec![e.clone(), E::String(format!("{s}-{u}"))])), (K::Expression(e.clone()), obj(vec![(K::Expression(E::String("{}".to_string())), E::Number(Number::from(42)))]))]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![L::String(format!("l{u}"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String(st.to_string()) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Number(Number::from(95)) })]) })]) })]) })]), None, &[86, 87, 88, 89, 90, 91, 92, 93, 94, 95])
}

fn c291(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c291(x), bod(vec![Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String(st.to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(s.len() as u64)), E::String("{}".to_string())]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Identifier(ident("x1")), E::Array(vec![E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())])])), (K::Identifier(ident("true")), obj(vec![(K::Expression(E::String("-".to_string())), E::String("".to_string())), (K::Expression(E::String(s.clone())), E::Number(Number::from(96))), (K::Expression(E::Number(Number::from(u))), E::Number(Number::from(97)))]))]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String("//".to_string()) })]), None, &[96, 97])
}

fn c292(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c292(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Identifier(ident("value")), E::Array(vec![]))]) }), Structure::Attribute(Attribute { key: ident("type"), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) })]), None, &[])
}

fn c293(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c293(x), bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: we.clone() }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]) })]), None, &[])
}

fn c294(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c294(x), bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Array(vec![obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Bool(!b)), (K::Expression(E::String("é日本😀".to_string())), E::Number(Number::from(98)))])]) })]), None, &[98])
}

fn c295(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c295(x), bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::String("1".to_string()) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Number(Number::from(7u8)) }), Structure::Block(Block { identifier: ident("key"), labels: vec![L::Identifier(ident("match")), L::String("back\\slash".to_string()), L::Identifier(ident("b"))], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Expression(e.clone()), o.map_or(E::Null, |n| E::Number(Number::from(n)))), (K::Expression(E::String("//".to_string())), E::Array(vec![E::String("//".to_string()), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::Number(Number::from_f64(1.5).unwrap()), we.clone()])), (K::Identifier(ident("a")), E::Array(vec![E::Bool(b)])), (K::Identifier(ident("copy")), obj(vec![(K::Expression(E::String("c".to_string())), e.clone())]))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::String("$${x}".to_string())), o.map_or(E::Null, |n| E::Number(Number::from(n)))), (K::Expression(E::String("%{ if x }".to_string())), E::String("null".to_string())), (K::Expression(E::String("c".to_string())), e.clone()), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(7u8)))]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::String("${var.a}".to_string()) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Array(vec![obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Number(Number::from(18446744073709551615u64))), (K::Expression(E::String("//".to_string())), E::Number(Number::from(99))), (K::Identifier(ident("long_identifier_of_many_bytes")), E::Null), (K::Identifier(ident("é")), E::Bool(false))]), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::Array(vec![E::String("[1, 2]".to_string()), E::Number(Number::from(i)), E::Bool(true)]), E::Bool(false)]) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::Number(Number::from(i)) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![we.clone(), e.clone()]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(if b { 1u64 } else { 2 })) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![E::Number(Number::from(7u8)), E::Number(Number::from(100))]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from(101)) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Number(Number::from(0)) })]) })]) })]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("[1, 2]".to_string()), L::String("%{ if x }".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Identifier(ident("value")), obj(vec![(K::Expression(e.clone()), E::Number(Number::from(if b { 1u64 } else { 2 })))])), (K::Expression(E::Number(Number::from(7))), E::Array(vec![E::Number(Number::from(7u8))])), (K::Expression(E::String(s.clone())), E::Number(Number::from(i))), (K::Expression(E::String("back\\slash".to_string())), E::String(st.to_string()))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::String(s.clone()) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String(st.to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(2147483647)) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()))]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Null }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Null)]) })]) })]) })]) })]), None, &[99, 100, 101])
}

fn c296(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c296(x), bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Expression(E::String("{}".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String("1".to_string())), E::Array(vec![E::Bool(b), E::Null, E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())]))]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from(105)) })]), None, &[105])
}

fn c297(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c297(x), bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("type"), labels: vec![L::String("é日本😀".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("value"), labels: vec![L::Identifier(ident("key")), L::String(st.to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::Number(Number::from(106)) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Number(Number::from(107)) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), E::Number(Number::from(-3))), (K::Expression(E::String("b c".to_string())), E::Null)]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(108)) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Bool(!b) })]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Null), (K::Identifier(ident("if")), E::Number(Number::from(109))), (K::Identifier(ident("long_identifier_of_many_bytes")), E::Number(Number::from(if b { 1u64 } else { 2 })))]) })]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::String("%{ if x }".to_string()) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("%{ if x }".to_string()), L::Identifier(ident("long_identifier_of_many_bytes"))], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Bool(b) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Bool(true) })]) })]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![L::String("c".to_string()), L::String("é日本😀".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from(0)) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Array(vec![E::Bool(true)]) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::String(st.to_string()) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from(i)) })]), None, &[106, 107, 108, 109])
}

fn c298(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c298(x), bod(vec![]), Some(""), &[])
}

fn c299(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c299(x), bod(vec![]), Some(""), &[])
}

fn c300(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c300(x), bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(s.len() as u64)), obj(vec![]), e.clone()]) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![], body: bod(vec![]) })]), None, &[])
}

fn c301(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c301(x), bod(vec![]), Some(""), &[])
}

fn c302(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c302(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String(st.to_string()) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Bool(false) })]), None, &[])
}

fn c303(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c303(x), bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::String("${var.a}".to_string()) }), Structure::Block(Block { identifier: ident("value"), labels: vec![L::Identifier(ident("object")), L::String("a.b".to_string())], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(2147483647)) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from_f64(0.25).unwrap()) })]), None, &[])
}

fn c304(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c304(x), bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::String("a".to_string()) })]), Some("match = []\né = \"a\"\n"), &[])
}

fn c305(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c305(x), bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String("#".to_string()) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Null }), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String("1".to_string()), L::String("back\\slash".to_string()), L::Identifier(ident("match"))], body: bod(vec![Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("a".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![L::Identifier(ident("_u")), L::String("//".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String(st.to_string()) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Bool(false) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(i)) })]) }), Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::String(st.to_string()), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::Number(Number::from(111)), E::Number(Number::from_f64(1.5).unwrap())]) }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![], body: bod(vec![]) })]) })]), None, &[111])
}

fn c306(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c306(x), bod(vec![Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("null".to_string()), L::String("back\\slash".to_string()), L::String("null".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("resource"), labels: vec![L::Identifier(ident("copy")), L::String("b c".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![L::String("-".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::String("tab\tnew\nline".to_string()) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::String("#".to_string()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::String("tab\tnew\nline".to_string()) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("tab\tnew\nline".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::Bool(true) }), Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![(K::Expression(E::String("a".to_string())), E::Bool(false)), (K::Expression(E::Number(Number::from(7))), E::Null)]) })]) })]) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::String("{}".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Bool(true) })]), None, &[])
}

fn c307(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c307(x), bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Bool(true) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![L::Identifier(ident("x1"))], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(i)) })]) })]), None, &[])
}

fn c308(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c308(x), bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::String("null".to_string()) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::String("1".to_string()) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::String("${var.a}".to_string()) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String(format!("l{u}")), L::String("$${x}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Number(Number::from(u / 2 + 1)) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Array(vec![]) })]) })]), None, &[])
}

fn c309(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c309(x), bod(vec![Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("é日本😀".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::Number(Number::from(2147483647)) }), Structure::Attribute(Attribute { key: ident("self"), expr: obj(vec![(K::Identifier(ident("resource")), E::String("back\\slash".to_string()))]) })]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::String("{}".to_string()) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("value"), expr: E::String("null".to_string()) })]), None, &[])
}

fn c310(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c310(x), bod(vec![Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("[1, 2]".to_string()), L::String("true".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::Identifier(ident("foo"))], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: e.clone() }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: e.clone() }), Structure::Attribute(Attribute { key: ident(id), expr: E::Null }), Structure::Attribute(Attribute { key: ident("é"), expr: we.clone() }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Bool(true) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) })]) })]) })]), None, &[])
}

fn c311(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c311(x), bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::Null }), Structure::Block(Block { identifier: ident("a"), labels: vec![L::String("null".to_string()), L::Identifier(ident("self"))], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![L::String("a.b".to_string()), L::String("{}".to_string()), L::Identifier(ident("copy"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::String("tab\tnew\nline".to_string()))]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::Number(Number::from(-3))]) })]) })]) })]), None, &[])
}

fn c312(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c312(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Null }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![(K::Expression(E::String("[1, 2]".to_string())), E::Null)]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("_u"), expr: obj(vec![]) })]) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![]) }), Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::String("".to_string()) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(vec![E::String("a.b".to_string()), E::Bool(false)]) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Number(Number::from(0)) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![L::String("$${x}".to_string()), L::String("#".to_string()), L::Identifier(ident("value"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Bool(true))]) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Bool(false) })]) }), Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: obj(vec![(K::Identifier(ident("x1")), obj(vec![(K::Identifier(ident("match")), E::String("[1, 2]".to_string())), (K::Expression(E::Number(Number::from(7))), E::String("{}".to_string()))])), (K::Expression(E::String("${var.a}".to_string())), obj(vec![(K::Identifier(ident("_u")), E::Null)]))]) })]) })]) }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::String("%{ if x }".to_string())], body: bod(vec![]) })]), None, &[])
}

fn c313(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c313(x), bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![L::String(s.clone()), L::String(st.to_string()), L::String("$${x}".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("x1"), labels: vec![L::Identifier(ident("foo")), L::String("true".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), E::String("a".to_string()))]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Number(Number::from(-3))), (K::Identifier(ident("value")), E::Null)]) })]) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("1".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Bool(!b) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(0)) })]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 }))]), obj(vec![(K::Identifier(ident("match")), E::String(format!("{s}-{u}")))]), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())]) }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::String("c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Attribute(Attribute { key: ident(id), expr: E::String(st.to_string()) })]) })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Null }), Structure::Attribute(Attribute { key: ident(id), expr: E::String("{}".to_string()) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![L::String("b c".to_string()), L::String("".to_string()), L::String(format!("l{u}"))], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::Number(Number::from(113))]) })]) }), Structure::Attribute(Attribute { key: ident("_u"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Number(Number::from(-3))), (K::Identifier(ident("self")), E::Number(Number::from(114)))]) })]) })]), None, &[113, 114])
}

fn c314(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c314(x), bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::Number(Number::from(u / 2 + 1)) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Number(Number::from(i)) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("%%".to_string()), L::String("tab\tnew\nline".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::Bool(true) })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("a.b".to_string()), L::String(st.to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Bool(!b) })]) }), Structure::Attribute(Attribute { key: ident("match"), expr: obj(vec![(K::Expression(E::String("a.b".to_string())), E::Bool(true)), (K::Identifier(ident("self")), E::String("back\\slash".to_string())), (K::Expression(E::String("b c".to_string())), E::String(st.to_string()))]) })]) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: E::Bool(true) })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::String("null".to_string()) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Number(Number::from(7u8)) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::String("-".to_string()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![]) })]) })]) })]), None, &[])
}

fn c315(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c315(x), bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Bool(false) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String(s.clone()), L::Identifier(ident("b"))], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("%{ if x }".to_string()), L::Identifier(ident("_u"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::Bool(!b) })]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Array(vec![E::Array(vec![])]) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String(st.to_string()), L::String("#".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::Number(Number::from_f64(0.25).unwrap()) })]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Bool(true) })]) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 })), E::String("c".to_string()), E::Number(Number::from(0))]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("key"), expr: obj(vec![(K::Identifier(ident("foo")), e.clone()), (K::Identifier(ident("key")), E::Number(Number::from(2147483647))), (K::Identifier(ident("b")), E::Number(Number::from(-3))), (K::Expression(E::String(st.to_string())), E::Bool(b))]) })]) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::Identifier(ident("resource")), L::String("%%".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::String("q\"x".to_string()) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![L::Identifier(ident("object"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Number(Number::from(9i64)) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![E::String("q\"x".to_string()), E::Number(Number::from(-3)), E::Number(Number::from(-3))]) })]) })]) })]), None, &[])
}

fn c316(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c316(x), bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: obj(vec![(K::Expression(E::String("-".to_string())), E::Array(vec![E::String("-".to_string()), E::String("é日本😀".to_string()), E::Bool(b)]))]) }), Structure::Attribute(Attribute { key: ident("b"), expr: obj(vec![(K::Expression(E::String(s.clone())), E::Array(vec![])), (K::Expression(e.clone()), obj(vec![(K::Expression(E::String("1".to_string())), E::String("{}".to_string())), (K::Identifier(ident("type")), E::Number(Number::from(18446744073709551615u64))), (K::Expression(E::String(format!("k{u}"))), E::Bool(!b)), (K::Expression(E::Number(Number::from(7))), E::Bool(false))]))]) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("type"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::String("[1, 2]".to_string()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]) })]) })]), None, &[])
}

fn c317(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c317(x), bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::String("{}".to_string()) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![], body: bod(vec![]) })]), None, &[])
}

fn c318(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c318(x), bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![L::String("%%".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Bool(true) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("a.b".to_string()), L::String("q\"x".to_string())], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("//".to_string()), L::Identifier(ident("bar_baz"))], body: bod(vec![]) })]) }), Structure::Block(Block { identifier: ident("self"), labels: vec![L::Identifier(ident("object")), L::String("b c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Number(Number::from(2147483647)) }), Structure::Block(Block { identifier: ident("x1"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Array(vec![E::Number(Number::from_f64(1.5).unwrap())]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), obj(vec![(K::Identifier(ident("true")), E::String("q\"x".to_string()))]))]) })]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Identifier(ident("foo")), E::Array(vec![E::Null]))]) })]) })]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("é日本😀".to_string()) })]), None, &[])
}

fn c319(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c319(x), bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), obj(vec![(K::Expression(E::String("%{ if x }".to_string())), E::Number(Number::from(18446744073709551615u64)))])), (K::Identifier(ident("key")), obj(vec![])), (K::Identifier(ident("self")), E::Array(vec![E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())]))]) })]) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Identifier(ident("long_identifier_of_many_bytes")), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()))]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from(2147483647)) })]), None, &[])
}

fn c320(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c320(x), bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![L::Identifier(ident("match")), L::String(format!("l{u}"))], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String("c".to_string()), L::String("a.b".to_string())], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::Null]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("".to_string())], body: bod(vec![]) })]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(u)) })]) })]), None, &[])
}

fn c321(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c321(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::Bool(true)]) })]), Some("long_identifier_of_many_bytes = [true]\n"), &[])
}

fn c322(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c322(x), bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![L::Identifier(ident("self")), L::String("é日本😀".to_string())], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("back\\slash".to_string()) })]), Some("foo self \"é日本😀\" {\n}\nx1 = \"back\\\\slash\"\n"), &[])
}

fn c323(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c323(x), bod(vec![Structure::Block(Block { identifier: ident("type"), labels: vec![L::String("b c".to_string()), L::Identifier(ident("long_identifier_of_many_bytes"))], body: bod(vec![Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::Array(vec![E::Null, E::Bool(b), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]), E::Number(Number::from(u / 2 + 1))])]) })]) })]) }), Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![(K::Expression(E::String("b c".to_string())), obj(vec![(K::Identifier(ident("true")), E::String("a".to_string())), (K::Expression(E::String(format!("k{u}"))), E::Bool(false)), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(116)))]))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: we.clone() })]), None, &[116])
}

fn c324(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c324(x), bod(vec![Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("1".to_string()), L::Identifier(ident("_u"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Number(Number::from_f64(1.5).unwrap()) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::String("".to_string()) })]), Some("b \"1\" _u {\nfoo = false\nnull = 1.5\nvalue = null\nkey = null\n}\nnull = \"\"\n"), &[])
}

fn c325(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c325(x), bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::String("-".to_string()) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::String("{}".to_string()) })]), None, &[])
}

fn c326(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c326(x), bod(vec![Structure::Block(Block { identifier: ident("_u"), labels: vec![L::Identifier(ident("x1"))], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("".to_string()) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("object"), labels: vec![L::String("back\\slash".to_string()), L::String("%{ if x }".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: obj(vec![(K::Identifier(ident("a")), E::String("${var.a}".to_string()))]) })]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Bool(true) })]) })]), None, &[])
}

fn c327(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c327(x), bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::Identifier(ident("resource")), L::String("{}".to_string())], body: bod(vec![]) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Bool(true) })]), None, &[])
}

fn c328(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c328(x), bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Bool(b) })]), None, &[])
}

fn c329(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c329(x), bod(vec![Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::Identifier(ident("self")), L::Identifier(ident("self")), L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: e.clone() })]) })]), None, &[])
}

fn c330(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c330(x), bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), E::String("[1, 2]".to_string()))]) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::Identifier(ident("value")), L::Identifier(ident("copy")), L::String("b c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::String("null".to_string()) }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::Identifier(ident("long_identifier_of_many_bytes"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::String("#".to_string()) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(0)) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Bool(true) })]) })]) })]), Some("key = false\nresource = { 7 = \"[1, 2]\", }\nbar_baz value copy \"b c\" {\nmatch = \"null\"\nlong_identifier_of_many_bytes long_identifier_of_many_bytes {\né = \"#\"\nmatch = 0\nfoo = true\n}\n}\n"), &[])
}

fn c331(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c331(x), bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("tab\tnew\nline".to_string()) }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String("%%".to_string()) }), Structure::Block(Block { identifier: ident("match"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(42)) })]) })]) })]) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: obj(vec![(K::Identifier(ident("copy")), E::Array(vec![E::Null, E::Number(Number::from(0)), E::String("$${x}".to_string())])), (K::Identifier(ident("x1")), E::Array(vec![E::String("//".to_string()), E::Number(Number::from(-3)), E::Bool(false)])), (K::Identifier(ident("true")), obj(vec![]))]) })]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::String("q\"x".to_string()) }), Structure::Attribute(Attribute { key: ident("type"), expr: obj(vec![(K::Expression(E::String("//".to_string())), E::Bool(false)), (K::Expression(E::String("null".to_string())), E::Number(Number::from(42))), (K::Identifier(ident("_u")), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(-8))), E::String("%{ if x }".to_string()))]) })]) })]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![]) })]), None, &[])
}

fn c332(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c332(x), bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![E::Number(Number::from_f64(1.5).unwrap())]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), E::Bool(false)), (K::Expression(E::String("a.b".to_string())), E::Number(Number::from(0))), (K::Expression(E::String("#".to_string())), E::Number(Number::from(-3))), (K::Expression(E::String("b c".to_string())), E::String("//".to_string()))]) })]), Some("object = [1.5,]\nfoo = { 7 = false, \"a.b\" = 0, \"#\" = -3, \"b c\" = \"//\"\n }\n"), &[])
}

fn c333(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c333(x), bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("{}".to_string()), L::String("é日本😀".to_string())], body: bod(vec![]) })]), None, &[])
}

fn c334(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c334(x), bod(vec![Structure::Block(Block { identifier: ident("type"), labels: vec![], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::Identifier(ident("resource")), L::String("".to_string()), L::String(s.clone())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String("true".to_string()), L::String("é日本😀".to_string()), L::String("[1, 2]".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), e.clone()), (K::Identifier(ident("match")), E::String("//".to_string())), (K::Expression(E::String("1".to_string())), E::Bool(!b)), (K::Expression(e.clone()), e.clone())]) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::String(st.to_string())]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::String("{}".to_string()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: we.clone() })]) }), Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from(42)) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(i)) }), Structure::Attribute(Attribute { key: ident("value"), expr: obj(vec![]) })]) })]) })]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("tab\tnew\nline".to_string()), L::String("c".to_string()), L::String(s.clone())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(119))), (K::Expression(E::Number(Number::from(u))), E::Number(Number::from(u / 2 + 1))), (K::Expression(E::String("[1, 2]".to_string())), E::Bool(!b)), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(s.len() as u64)))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![]) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![L::Identifier(ident("match"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), E::Number(Number::from(0))), (K::Expression(E::String(format!("k{u}"))), E::Array(vec![E::Number(Number::from(120))])), (K::Expression(E::String(st.to_string())), E::Number(Number::from(121))), (K::Expression(E::Number(Number::from(-8))), obj(vec![(K::Expression(E::String("%{ if x }".to_string())), E::Number(Number::from(s.len() as u64)))]))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 })), E::String(st.to_string())]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Array(vec![E::Array(vec![]), obj(vec![(K::Expression(E::String(s.clone())), E::Number(Number::from(if b { 1u64 } else { 2 })))]), E::Array(vec![E::Null, E::String("%%".to_string())]), obj(vec![(K::Identifier(ident("key")), we.clone())])]) })]) })]) })]) })]), None, &[119, 120, 121])
}

fn c335(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c335(x), bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::Bool(!b)]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Null })]), None, &[])
}

fn c336(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c336(x), bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![obj(vec![(K::Expression(E::String("é日本😀".to_string())), E::Null), (K::Expression(E::Number(Number::from(u))), E::String(st.to_string())), (K::Expression(E::String("%%".to_string())), E::Number(Number::from(122)))]), E::Number(Number::from(123)), obj(vec![(K::Expression(e.clone()), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())])), (K::Expression(E::String("c".to_string())), E::Number(Number::from(u / 2 + 1))), (K::Identifier(ident("type")), E::String("{}".to_string())), (K::Identifier(ident("value")), E::Number(Number::from(124)))])]) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Array(vec![E::Array(vec![])]) })]), None, &[122, 123, 124])
}

fn c337(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c337(x), bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: obj(vec![(K::Identifier(ident("é")), E::Number(Number::from(2147483647)))]) }), Structure::Block(Block { identifier: ident("foo"), labels: vec![L::Identifier(ident("_u")), L::String("${var.a}".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![L::Identifier(ident("long_identifier_of_many_bytes"))], body: bod(vec![Structure::Block(Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Bool(true) }), Structure::Attribute(Attribute { key: ident("self"), expr: obj(vec![(K::Expression(E::String("1".to_string())), obj(vec![(K::Identifier(ident("key")), E::Number(Number::from(0)))])), (K::Identifier(ident("type")), E::String("null".to_string()))]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::String("1".to_string()) })]) })]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Null })]), None, &[])
}

fn c338(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c338(x), bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::String(s.clone()) })]), None, &[])
}

fn c339(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c339(x), bod(vec![]), Some(""), &[])
}

fn c340(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c340(x), bod(vec![Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("a.b".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("é日本😀".to_string()) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::String("$${x}".to_string())]) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: E::String("b c".to_string()) }), Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from_f64(1.5).unwrap()) })]) })]) }), Structure::Attribute(Attribute { key: ident("value"), expr: obj(vec![(K::Expression(E::String("null".to_string())), E::Number(Number::from(-3)))]) })]), None, &[])
}

fn c341(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c341(x), bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("b"), expr: obj(vec![(K::Identifier(ident("true")), E::Array(vec![E::Null, E::Number(Number::from(-3)), E::String("é日本😀".to_string())]))]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Bool(true) })]), None, &[])
}

fn c342(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c342(x), bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Number(Number::from(125)) }), Structure::Block(Block { identifier: ident("key"), labels: vec![L::Identifier(ident("a")), L::String("-".to_string())], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![L::String("q\"x".to_string()), L::String("a".to_string()), L::Identifier(ident("object"))], body: bod(vec![]) })]), None, &[125])
}

fn c343(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c343(x), bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(126)), E::Number(Number::from(7u8))]), E::Bool(false), obj(vec![(K::Expression(E::String("//".to_string())), E::Bool(b)), (K::Expression(E::Number(Number::from(7))), E::Null), (K::Expression(E::String(format!("k{u}"))), E::String(st.to_string())), (K::Identifier(ident("null")), we.clone())]), E::String("a.b".to_string())]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![]) })]), None, &[126])
}

fn c344(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c344(x), bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![L::String("$${x}".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from(2147483647)) })]) })]) }), Structure::Block(Block { identifier: ident("object"), labels: vec![L::String("q\"x".to_string()), L::String("true".to_string()), L::String("q\"x".to_string())], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::Identifier(ident("key")), L::String(st.to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("q\"x".to_string()) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Bool(true) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![L::String(st.to_string()), L::String("${var.a}".to_string())], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::String("q\"x".to_string())), obj(vec![(K::Identifier(ident("long_identifier_of_many_bytes")), E::Bool(true)), (K::Expression(E::String(format!("k{u}"))), o.map_or(E::Null, |n| E::Number(Number::from(n))))])), (K::Expression(E::String("c".to_string())), E::Array(vec![E::Bool(b)])), (K::Expression(E::String(s.clone())), E::Array(vec![E::Number(Number::from(127)), E::String(st.to_string()), E::String(st.to_string())]))]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String(s.clone()) })]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("%{ if x }".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::String("%%".to_string()) })]) })]), None, &[127])
}

fn c345(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c345(x), bod(vec![]), Some(""), &[])
}

fn c346(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c346(x), bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String("$${x}".to_string()), L::Identifier(ident("bar_baz")), L::String("//".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("é"), expr: E::Array(vec![obj(vec![(K::Expression(E::String(st.to_string())), E::Number(Number::from(128)))])]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Bool(b) })]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![E::Null, E::String("%{ if x }".to_string()), E::Number(Number::from(-3))]) })]), None, &[128])
}

fn c347(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c347(x), bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Identifier(ident("bar_baz")), we.clone())]) }), Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Identifier(ident("key")), obj(vec![(K::Expression(E::String(format!("k{u}"))), E::String("é日本😀".to_string()))])), (K::Expression(E::String("a".to_string())), E::Bool(b)), (K::Identifier(ident("object")), obj(vec![(K::Expression(E::Number(Number::from(u))), E::Number(Number::from(129))), (K::Identifier(ident("match")), E::Null), (K::Expression(E::String(st.to_string())), e.clone())]))]) })]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![obj(vec![(K::Expression(E::String("back\\slash".to_string())), E::Bool(false)), (K::Expression(E::String("b c".to_string())), E::Number(Number::from_f64(0.25).unwrap())), (K::Expression(E::String("{}".to_string())), E::Number(Number::from(130))), (K::Identifier(ident("b")), E::Bool(true))])]) })]), None, &[129, 130])
}

fn c348(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c348(x), bod(vec![]), Some(""), &[])
}

fn c349(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("body", || bare::c349(x), bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("back\\slash".to_string()) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Array(vec![E::String("[1, 2]".to_string())]) })]), Some("x1 = \"back\\\\slash\"\ntype = [\"[1, 2]\"]\n"), &[])
}

fn c350(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c350(x), Block { identifier: ident("é"), labels: vec![L::String("${var.a}".to_string()), L::String(st.to_string()), L::String("a.b".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), E::String(s.clone())), (K::Identifier(ident("x1")), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())), (K::Identifier(ident("é")), E::Number(Number::from(7u8))), (K::Expression(E::String("1".to_string())), E::Null)]) }), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::String("".to_string()), L::Identifier(ident("elems"))], body: bod(vec![Structure::Block(Block { identifier: ident("object"), labels: vec![L::String(st.to_string()), L::String("c".to_string()), L::String("c".to_string())], body: bod(vec![]) })]) })]) }, None, &[])
}

fn c351(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c351(x), Block { identifier: ident("self"), labels: vec![L::String("%%".to_string()), L::Identifier(ident("type")), L::Identifier(ident("x1"))], body: bod(vec![]) }, Some("self \"%%\" type x1 {\n}\n"), &[])
}

fn c352(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c352(x), Block { identifier: ident("foo"), labels: vec![L::String("{}".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![L::String("-".to_string()), L::Identifier(ident("a"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![E::Number(Number::from(-3)), E::String("a.b".to_string()), E::Null]) })]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::String("${var.a}".to_string()) })]) }, None, &[])
}

fn c353(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c353(x), Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::String("back\\slash".to_string()), E::Number(Number::from(-3))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(i)) })]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::Number(Number::from(131)) }), Structure::Attribute(Attribute { key: ident(id), expr: we.clone() })]) }, None, &[131])
}

fn c354(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c354(x), Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Block(Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![L::String("-".to_string()), L::String("%%".to_string()), L::String("back\\slash".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Number(Number::from(132)) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(7u8)) }), Structure::Attribute(Attribute { key: ident("self"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Number(Number::from(2147483647))), (K::Identifier(ident("foo")), E::Bool(!b)), (K::Expression(E::String("1".to_string())), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(-3)))]) })]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(e.clone()), obj(vec![(K::Expression(E::String("lit".to_string())), E::String("c".to_string())), (K::Expression(E::Number(Number::from(7))), E::Number(Number::from(133))), (K::Expression(E::String(s.clone())), E::String("null".to_string()))]))]) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Null })]) }, None, &[132, 133])
}

fn c355(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c355(x), Block { identifier: ident("object"), labels: vec![L::Identifier(ident("bar_baz")), L::Identifier(ident("value"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::String("#".to_string()) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), obj(vec![(K::Identifier(ident("null")), E::Bool(true))])), (K::Identifier(ident("_u")), E::String("é日本😀".to_string())), (K::Expression(E::String("//".to_string())), obj(vec![(K::Expression(E::String("q\"x".to_string())), E::String("true".to_string())), (K::Identifier(ident("self")), E::String("".to_string())), (K::Identifier(ident("null")), E::String("[1, 2]".to_string()))]))]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: obj(vec![(K::Identifier(ident("null")), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::String("b c".to_string()))]))]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::String("%{ if x }".to_string()) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![E::Number(Number::from(-3))]) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::Bool(false) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("-".to_string()), L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::Bool(true) })]) })]) })]) }, None, &[])
}

fn c356(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c356(x), Block { identifier: ident("type"), labels: vec![L::String("{}".to_string()), L::String("%{ if x }".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Bool(true) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::String("//".to_string()) })]) })]) }, None, &[])
}

fn c357(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c357(x), Block { identifier: ident("bar_baz"), labels: vec![L::String("null".to_string()), L::String("[1, 2]".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("%{ if x }".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("type"), labels: vec![L::Identifier(ident("match")), L::String("c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Bool(true) }), Structure::Attribute(Attribute { key: ident("elems"), expr: E::String("%%".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Number(Number::from(u)) })]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(u)) })]) }, None, &[])
}

fn c358(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c358(x), Block { identifier: ident(id), labels: vec![L::Identifier(ident("elems")), L::Identifier(ident("self"))], body: bod(vec![Structure::Block(Block { identifier: ident("match"), labels: vec![L::String(format!("l{u}")), L::String("tab\tnew\nline".to_string()), L::String("{}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(136)) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Bool(true) })]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::String(s.clone()) })]) }, None, &[136])
}

fn c359(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c359(x), Block { identifier: ident("x1"), labels: vec![], body: bod(vec![]) }, Some("x1 {\n}\n"), &[])
}

fn c360(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c360(x), Block { identifier: ident("x1"), labels: vec![L::String(format!("l{u}")), L::String("".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String(s.clone()) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from(18446744073709551615u64)) }), Structure::Attribute(Attribute { key: ident("a"), expr: e.clone() })]) }, None, &[])
}

fn c361(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c361(x), Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Null })]) }, Some("resource {\nkey = null\n}\n"), &[])
}

fn c362(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c362(x), Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("value"), labels: vec![L::Identifier(ident("long_identifier_of_many_bytes")), L::String("c".to_string()), L::Identifier(ident("resource"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::Bool(!b), E::String("c".to_string()), o.map_or(E::Null, |n| E::Number(Number::from(n)))]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(137)), E::Number(Number::from(138)), E::Null, E::Bool(false)]), E::Array(vec![E::String("$${x}".to_string()), E::String("é日本😀".to_string()), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), E::Bool(false)])]) })]) })]) })]) }, None, &[137, 138])
}

fn c363(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c363(x), Block { identifier: ident("object"), labels: vec![L::String("#".to_string()), L::Identifier(ident("x1"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from(139)) })]) }, None, &[139])
}

fn c364(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c364(x), Block { identifier: ident("b"), labels: vec![L::String(st.to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: E::Number(Number::from(7u8)) })]) }), Structure::Block(Block { identifier: ident("a"), labels: vec![L::String("${var.a}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![e.clone(), E::Number(Number::from(140)), E::Number(Number::from(141))]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![]) })]) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from(142)) }), Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![(K::Expression(E::String(s.clone())), E::Bool(b)), (K::Identifier(ident("foo")), E::Bool(b)), (K::Expression(E::String(st.to_string())), we.clone()), (K::Expression(E::String(format!("k{u}"))), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()))]) }), Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(42)) }), Structure::Attribute(Attribute { key: ident(id), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Bool(b) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![E::Number(Number::from(143))]) })]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Number(Number::from(u)) }), Structure::Attribute(Attribute { key: ident("key"), expr: obj(vec![(K::Identifier(ident("key")), E::Number(Number::from_f64(f).unwrap())), (K::Expression(E::String(st.to_string())), E::Number(Number::from(144))), (K::Expression(E::Number(Number::from(7))), E::Null), (K::Expression(E::String("${var.a}".to_string())), E::Number(Number::from(145)))]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) })]) })]) }), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("b c".to_string()), L::String(format!("l{u}"))], body: bod(vec![]) })]) }, None, &[140, 141, 142, 143, 144, 145])
}

fn c365(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c365(x), Block { identifier: ident("a"), labels: vec![L::String("-".to_string()), L::String("back\\slash".to_string()), L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::Array(vec![E::String("{}".to_string()), obj(vec![(K::Expression(E::String("q\"x".to_string())), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(7))), E::String("${var.a}".to_string())), (K::Identifier(ident("key")), E::Number(Number::from(2147483647)))]), E::String("[1, 2]".to_string())]) })]) }, None, &[])
}

fn c366(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c366(x), Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("type"), expr: e.clone() }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("-".to_string()), L::String("q\"x".to_string())], body: bod(vec![]) })]) }, None, &[])
}

fn c367(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c367(x), Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Expression(E::String(st.to_string())), E::Bool(false)), (K::Expression(E::String("null".to_string())), E::Null)]) }), Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Number(Number::from(7u8))), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(18446744073709551615u64))), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(146))), (K::Expression(E::String("%%".to_string())), o.map_or(E::Null, |n| E::Number(Number::from(n))))]) })]) }, None, &[146])
}

fn c368(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c368(x), Block { identifier: ident("self"), labels: vec![L::String("a".to_string()), L::String("1".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("b"), labels: vec![L::Identifier(ident("b")), L::String("c".to_string()), L::Identifier(ident("self"))], body: bod(vec![Structure::Block(Block { identifier: ident("a"), labels: vec![L::String("{}".to_string()), L::String("a".to_string()), L::String("%%".to_string())], body: bod(vec![]) }), Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("self"), expr: E::Array(vec![E::Number(Number::from(if b { 1u64 } else { 2 }))]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::String("a.b".to_string()) })]) })]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from(147)) })]) }, None, &[147])
}

fn c369(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c369(x), Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Array(vec![e.clone(), o.map_or(E::Null, |n| E::Number(Number::from(n))), E::Number(Number::from(9i64)), E::Bool(!b)])]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::String(s.clone()) })]) }, None, &[])
}

fn c370(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c370(x), Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![]) })]) }, None, &[])
}

fn c371(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c371(x), Block { identifier: ident("foo"), labels: vec![L::String("true".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Array(vec![E::Number(Number::from(-3))]) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("true".to_string()), L::String("b c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::Null }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("tab\tnew\nline".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Bool(true) })]) }, Some("foo \"true\" {\nkey = [-3]\nmatch \"true\" \"b c\" {\nfoo = null\nobject = \"tab\\tnew\\nline\"\n}\nfoo = true\n}\n"), &[])
}

fn c372(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c372(x), Block { identifier: ident("key"), labels: vec![], body: bod(vec![]) }, Some("key {\n}\n"), &[])
}

fn c373(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c373(x), Block { identifier: ident(id), labels: vec![L::String("{}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(42)) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Bool(b) }), Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::String("tab\tnew\nline".to_string()) })]) }, None, &[])
}

fn c374(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c374(x), Block { identifier: ident("long_identifier_of_many_bytes"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("copy"), labels: vec![], body: bod(vec![]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("%{ if x }".to_string()) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Bool(false) })]) }, None, &[])
}

fn c375(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c375(x), Block { identifier: ident("type"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("self"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![E::Array(vec![E::String("b c".to_string()), E::String(s.clone()), E::String("c".to_string())]), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()), E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect())]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![]) })]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: E::Number(Number::from(u / 2 + 1)) }), Structure::Attribute(Attribute { key: ident("type"), expr: E::Array(vec![]) })]) }), Structure::Attribute(Attribute { key: ident("_u"), expr: obj(vec![(K::Expression(E::Number(Number::from(u))), E::Bool(!b)), (K::Expression(E::Number(Number::from(-8))), E::Number(Number::from_f64(0.25).unwrap())), (K::Expression(E::String(st.to_string())), E::Number(Number::from(2147483647)))]) }), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![obj(vec![(K::Identifier(ident("match")), E::Number(Number::from(150)))])]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: obj(vec![(K::Expression(e.clone()), E::Null)]) })]) })]) })]) }, None, &[150])
}

fn c376(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c376(x), Block { identifier: ident("bar_baz"), labels: vec![], body: bod(vec![]) }, Some("bar_baz {\n}\n"), &[])
}

fn c377(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c377(x), Block { identifier: ident("object"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("b"), expr: obj(vec![(K::Identifier(ident("foo")), E::Number(Number::from_f64(1.5).unwrap()))]) }), Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Number(Number::from(2147483647)) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("{}".to_string()), L::String("${var.a}".to_string()), L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("a"), expr: E::String("true".to_string()) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("{}".to_string()) })]) })]) }), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: obj(vec![(K::Identifier(ident("long_identifier_of_many_bytes")), E::Array(vec![E::Null, E::String("{}".to_string()), E::Number(Number::from(0))])), (K::Identifier(ident("_u")), E::Array(vec![E::String("a".to_string()), E::Null])), (K::Expression(E::String("a".to_string())), E::Bool(false))]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Null })]) }, None, &[])
}

fn c378(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c378(x), Block { identifier: ident("self"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("elems"), labels: vec![L::Identifier(ident("bar_baz"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::Bool(false) })]) })]) }, Some("self {\nelems bar_baz {\nelems = false\n}\n}\n"), &[])
}

fn c379(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c379(x), Block { identifier: ident("é"), labels: vec![L::Identifier(ident("é"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: obj(vec![(K::Expression(E::String(s.clone())), E::String("true".to_string()))]) }), Structure::Block(Block { identifier: ident("a"), labels: vec![L::Identifier(ident("self")), L::String("a".to_string()), L::String("-".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("value"), labels: vec![L::String(format!("l{u}"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]) }), Structure::Attribute(Attribute { key: ident("elems"), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: obj(vec![(K::Identifier(ident("elems")), E::Number(Number::from(u)))]) })]) }), Structure::Block(Block { identifier: ident("a"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: obj(vec![(K::Identifier(ident("é")), E::Array(vec![we.clone(), e.clone(), E::Null, E::Bool(true)])), (K::Identifier(ident("object")), E::Number(Number::from(151))), (K::Expression(E::String("[1, 2]".to_string())), E::Number(Number::from(i)))]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Null })]) }), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("//".to_string()), L::String("c".to_string()), L::String(s.clone())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from_f64(f).unwrap()) }), Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![(K::Expression(E::String(format!("k{u}"))), E::String("q\"x".to_string())), (K::Expression(E::Number(Number::from(-8))), E::String("{}".to_string())), (K::Expression(E::String(st.to_string())), E::String("tab\tnew\nline".to_string())), (K::Expression(E::String("lit".to_string())), E::Bool(true))]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(9i64)) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::String("q\"x".to_string()) })]) })]) })]) }, None, &[151])
}

fn c380(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c380(x), Block { identifier: ident("self"), labels: vec![L::String("c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: E::Null }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from(152)) })]) }, None, &[152])
}

fn c381(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c381(x), Block { identifier: ident("foo"), labels: vec![L::String("%{ if x }".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("_u"), labels: vec![L::String("back\\slash".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("_u"), labels: vec![L::Identifier(ident("_u")), L::Identifier(ident("bar_baz")), L::Identifier(ident("long_identifier_of_many_bytes"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Bool(true) })]) }), Structure::Block(Block { identifier: ident("b"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Attribute(Attribute { key: ident("self"), expr: E::String("${var.a}".to_string()) })]) })]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("#".to_string()) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("tab\tnew\nline".to_string()), L::Identifier(ident("match")), L::String("".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![E::String("back\\slash".to_string()), E::Number(Number::from(0)), E::String("%{ if x }".to_string())]) }), Structure::Block(Block { identifier: ident("_u"), labels: vec![L::Identifier(ident("type")), L::String("a".to_string()), L::Identifier(ident("resource"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("copy"), expr: E::String("back\\slash".to_string()) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("".to_string()) }), Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(-3)))]) }), Structure::Attribute(Attribute { key: ident("self"), expr: obj(vec![(K::Identifier(ident("type")), E::Array(vec![E::Null, E::Number(Number::from(-3))]))]) })]) })]) })]) }, None, &[])
}

fn c382(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c382(x), Block { identifier: ident("resource"), labels: vec![L::String("c".to_string()), L::String("a.b".to_string()), L::Identifier(ident("copy"))], body: bod(vec![Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("%{ if x }".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::Number(Number::from(i)) }), Structure::Block(Block { identifier: ident("a"), labels: vec![L::String(format!("l{u}")), L::String(format!("l{u}")), L::String("1".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Bool(!b) })]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::String("c".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("match"), expr: obj(vec![(K::Expression(E::String(st.to_string())), E::Array(vec![E::String("${var.a}".to_string())])), (K::Expression(E::Number(Number::from(-8))), obj(vec![(K::Identifier(ident("_u")), E::Number(Number::from(0)))])), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(u / 2 + 1))), (K::Expression(E::String("{}".to_string())), we.clone())]) }), Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![(K::Expression(E::String("lit".to_string())), E::Number(Number::from(0)))]) })]) }, None, &[])
}

fn c383(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c383(x), Block { identifier: ident(id), labels: vec![L::String("//".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(id), expr: e.clone() }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::String(s.clone()) })]) }, None, &[])
}

fn c384(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c384(x), Block { identifier: ident("foo"), labels: vec![L::String("tab\tnew\nline".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::String("-".to_string())]) }), Structure::Block(Block { identifier: ident("b"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(E::String(st.to_string())), E::Number(Number::from(42))), (K::Identifier(ident("value")), obj(vec![]))]) }), Structure::Block(Block { identifier: ident("key"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::String(st.to_string()) })]) }), Structure::Block(Block { identifier: ident("é"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Null })]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::Bool(b) })]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Number(Number::from(153)) })]) }, None, &[153])
}

fn c385(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c385(x), Block { identifier: ident("resource"), labels: vec![L::String("$${x}".to_string()), L::String("a".to_string()), L::String("[1, 2]".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::String("q\"x".to_string()) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::String("#".to_string()) })]) }, None, &[])
}

fn c386(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c386(x), Block { identifier: ident("match"), labels: vec![], body: bod(vec![]) }, Some("match {\n}\n"), &[])
}

fn c387(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c387(x), Block { identifier: ident("x1"), labels: vec![L::Identifier(ident("b"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("_u"), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(18446744073709551615u64))]), E::Array(vec![E::Number(Number::from(154)), e.clone()]), E::String(format!("{s}-{u}")), we.clone()]) }), Structure::Attribute(Attribute { key: ident("x1"), expr: e.clone() })]) }, None, &[154])
}

fn c388(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c388(x), Block { identifier: ident("bar_baz"), labels: vec![L::Identifier(ident("value")), L::Identifier(ident("self")), L::String("[1, 2]".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("null"), expr: E::String("//".to_string()) }), Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::String(st.to_string()) })]) })]) }, None, &[])
}

fn c389(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("block", || bare::c389(x), Block { identifier: ident("foo"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("elems"), expr: E::Array(vec![]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Bool(false) }), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("-".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::String("1".to_string()), E::String(s.clone())]) }), Structure::Attribute(Attribute { key: ident("é"), expr: E::String("back\\slash".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(vec![E::String("-".to_string())]) })]) }, None, &[])
}

fn c390(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c390(x), Attribute { key: ident("a"), expr: E::Array(vec![E::Array(vec![obj(vec![(K::Identifier(ident("a")), E::Bool(true)), (K::Expression(E::Number(Number::from(-8))), E::Null)]), E::Array(vec![E::String("%{ if x }".to_string())])]), obj(vec![(K::Expression(E::Number(Number::from(7))), E::String("{}".to_string())), (K::Identifier(ident("match")), E::Array(vec![E::Null])), (K::Expression(E::Number(Number::from(-8))), E::Array(vec![E::Bool(true), E::String("1".to_string()), E::String("//".to_string()), E::Null])), (K::Identifier(ident("foo")), E::String("".to_string()))]), E::Array(vec![E::String("$${x}".to_string()), obj(vec![(K::Identifier(ident("self")), E::Number(Number::from(-3)))]), E::Array(vec![E::Number(Number::from_f64(0.25).unwrap())]), E::String("true".to_string())]), E::Number(Number::from(-3))]) }, None, &[])
}

fn c391(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c391(x), Attribute { key: ident("a"), expr: E::Bool(true) }, Some("a = true\n"), &[])
}

fn c392(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c392(x), Attribute { key: ident("b"), expr: obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Array(vec![]))]) }, None, &[])
}

fn c393(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c393(x), Attribute { key: ident("value"), expr: E::Array(vec![E::Array(vec![E::String("null".to_string()), obj(vec![(K::Identifier(ident("copy")), E::String("1".to_string())), (K::Identifier(ident("type")), E::String("${var.a}".to_string()))]), E::String("a".to_string())]), E::Number(Number::from(2147483647))]) }, None, &[])
}

fn c394(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c394(x), Attribute { key: ident("key"), expr: E::Number(Number::from(155)) }, None, &[155])
}

fn c395(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c395(x), Attribute { key: ident("match"), expr: E::Number(Number::from(156)) }, None, &[156])
}

fn c396(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c396(x), Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::String("%%".to_string())]) }, Some("long_identifier_of_many_bytes = [\"%%\"]\n"), &[])
}

fn c397(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c397(x), Attribute { key: ident("b"), expr: E::Null }, Some("b = null\n"), &[])
}

fn c398(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c398(x), Attribute { key: ident("value"), expr: E::Bool(true) }, Some("value = true\n"), &[])
}

fn c399(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c399(x), Attribute { key: ident("match"), expr: E::Array(vec![obj(vec![(K::Expression(E::String("$${x}".to_string())), E::Array(vec![E::String("".to_string()), E::Null]))])]) }, None, &[])
}

fn c400(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c400(x), Attribute { key: ident("resource"), expr: E::String(st.to_string()) }, None, &[])
}

fn c401(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c401(x), Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(2147483647)) }, None, &[])
}

fn c402(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c402(x), Attribute { key: ident(id), expr: E::Bool(true) }, None, &[])
}

fn c403(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c403(x), Attribute { key: ident("null"), expr: E::Null }, Some("null = null\n"), &[])
}

fn c404(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c404(x), Attribute { key: ident("a"), expr: E::Array(vec![E::Array(vec![E::Array(vec![]), E::Array(vec![E::Number(Number::from(-3))]), E::Null])]) }, Some("a = [[[], [-3], null]]\n"), &[])
}

fn c405(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c405(x), Attribute { key: ident(&format!("k{u}")), expr: E::Bool(true) }, None, &[])
}

fn c406(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c406(x), Attribute { key: ident("value"), expr: E::Number(Number::from(-3)) }, Some("value = -3\n"), &[])
}

fn c407(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c407(x), Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(-3)) }, None, &[])
}

fn c408(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c408(x), Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from_f64(f).unwrap()) }, None, &[])
}

fn c409(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c409(x), Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::String(st.to_string())), obj(vec![(K::Expression(E::String("a".to_string())), E::Array(vec![E::Number(Number::from(157))]))])), (K::Identifier(ident("type")), obj(vec![])), (K::Expression(E::String("tab\tnew\nline".to_string())), obj(vec![(K::Expression(E::String(st.to_string())), E::String("back\\slash".to_string())), (K::Expression(E::String("b c".to_string())), E::Number(Number::from_f64(1.5).unwrap()))])), (K::Expression(E::String("lit".to_string())), E::Array(vec![E::Number(Number::from(158))]))]) }, None, &[157, 158])
}

fn c410(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c410(x), Attribute { key: ident("foo"), expr: E::Bool(true) }, Some("foo = true\n"), &[])
}

fn c411(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c411(x), Attribute { key: ident("é"), expr: obj(vec![(K::Expression(E::String("-".to_string())), o.map_or(E::Null, |n| E::Number(Number::from(n)))), (K::Identifier(ident("foo")), E::Array(vec![E::Number(Number::from(159)), E::Null, E::Number(Number::from(160)), E::Array(vec![E::String(s.clone())])])), (K::Identifier(ident("type")), obj(vec![(K::Expression(E::String("//".to_string())), E::Number(Number::from(161))), (K::Expression(E::String("lit".to_string())), E::Number(Number::from(18446744073709551615u64))), (K::Identifier(ident("value")), obj(vec![])), (K::Expression(E::Number(Number::from(u))), E::Array(vec![]))])), (K::Identifier(ident("long_identifier_of_many_bytes")), E::Number(Number::from(-3)))]) }, None, &[159, 160, 161])
}

fn c412(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c412(x), Attribute { key: ident("self"), expr: obj(vec![(K::Expression(E::String("c".to_string())), E::Number(Number::from(s.len() as u64)))]) }, None, &[])
}

fn c413(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c413(x), Attribute { key: ident("é"), expr: obj(vec![]) }, Some("é = { }\n"), &[])
}

fn c414(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c414(x), Attribute { key: ident("bar_baz"), expr: E::Number(Number::from(162)) }, None, &[162])
}

fn c415(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c415(x), Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![]) }, None, &[])
}

fn c416(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c416(x), Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Array(vec![obj(vec![]), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::String("".to_string()))]), E::String("é日本😀".to_string())])]) }, None, &[])
}

fn c417(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c417(x), Attribute { key: ident("é"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), E::Bool(false)), (K::Expression(E::String("%%".to_string())), obj(vec![(K::Identifier(ident("_u")), E::Array(vec![E::Number(Number::from_f64(1.5).unwrap())]))])), (K::Expression(E::String(st.to_string())), E::Bool(false))]) }, None, &[])
}

fn c418(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c418(x), Attribute { key: ident("match"), expr: E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]) }, None, &[])
}

fn c419(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c419(x), Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![obj(vec![(K::Expression(E::String("%{ if x }".to_string())), E::Array(vec![])), (K::Expression(E::String(s.clone())), E::Number(Number::from(-3))), (K::Identifier(ident("_u")), E::Number(Number::from(i)))]), E::Array(vec![]), obj(vec![(K::Expression(e.clone()), E::Array(vec![o.map_or(E::Null, |n| E::Number(Number::from(n))), E::Number(Number::from(u)), E::Number(Number::from(163))])), (K::Identifier(ident("long_identifier_of_many_bytes")), E::Number(Number::from(-3))), (K::Expression(E::String("c".to_string())), obj(vec![(K::Expression(e.clone()), E::Number(Number::from(2147483647)))]))])]) }, None, &[163])
}

fn c420(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c420(x), Attribute { key: ident("object"), expr: we.clone() }, None, &[])
}

fn c421(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c421(x), Attribute { key: ident("_u"), expr: E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(7))), E::Array(vec![E::Bool(true), E::Number(Number::from(0)), E::String(format!("{s}-{u}")), E::Number(Number::from(164))]))])]) }, None, &[164])
}

fn c422(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c422(x), Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![]) }, None, &[])
}

fn c423(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c423(x), Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::String("c".to_string())]) }, None, &[])
}

fn c424(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c424(x), Attribute { key: ident("bar_baz"), expr: E::Array(vec![obj(vec![])]) }, Some("bar_baz = [{ }]\n"), &[])
}

fn c425(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c425(x), Attribute { key: ident("bar_baz"), expr: E::String(format!("{s}-{u}")) }, None, &[])
}

fn c426(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c426(x), Attribute { key: ident("self"), expr: E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]) }, None, &[])
}

fn c427(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c427(x), Attribute { key: ident("object"), expr: E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]) }, None, &[])
}

fn c428(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c428(x), Attribute { key: ident("object"), expr: E::Array(vec![E::String("b c".to_string()), E::Array(vec![E::Array(vec![E::Bool(true), E::Null, E::String("${var.a}".to_string()), E::String("null".to_string())])]), E::Array(vec![E::Array(vec![E::Bool(false)])])]) }, None, &[])
}

fn c429(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("attribute", || bare::c429(x), Attribute { key: ident("match"), expr: obj(vec![(K::Identifier(ident("bar_baz")), E::Number(Number::from(-3))), (K::Expression(E::String("$${x}".to_string())), E::String("-".to_string())), (K::Expression(E::String("1".to_string())), E::String("${var.a}".to_string())), (K::Identifier(ident("value")), obj(vec![]))]) }, None, &[])
}

fn c430(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c430(x), Structure::Attribute(Attribute { key: ident("null"), expr: obj(vec![(K::Identifier(ident("x1")), E::String("#".to_string()))]) }), Some("null = { x1 = \"#\"\n }\n"), &[])
}

fn c431(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c431(x), Structure::Block(Block { identifier: ident("b"), labels: vec![L::String("".to_string()), L::Identifier(ident("object"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Number(Number::from(165)) }), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String(format!("l{u}"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("a"), expr: E::Bool(b) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from(166)) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![E::Number(Number::from(s.len() as u64))]) })]) })]) }), None, &[165, 166])
}

fn c432(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c432(x), Structure::Attribute(Attribute { key: ident("null"), expr: E::Null }), Some("null = null\n"), &[])
}

fn c433(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c433(x), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::String("[1, 2]".to_string())], body: bod(vec![]) }), Some("elems \"[1, 2]\" {\n}\n"), &[])
}

fn c434(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c434(x), Structure::Attribute(Attribute { key: ident("a"), expr: obj(vec![(K::Identifier(ident("self")), E::String("back\\slash".to_string()))]) }), Some("a = { self = \"back\\\\slash\", }\n"), &[])
}

fn c435(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c435(x), Structure::Block(Block { identifier: ident("b"), labels: vec![L::Identifier(ident("resource")), L::Identifier(ident("match")), L::String("#".to_string())], body: bod(vec![]) }), Some("b resource match \"#\" {\n}\n"), &[])
}

fn c436(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c436(x), Structure::Attribute(Attribute { key: ident("copy"), expr: obj(vec![(K::Expression(E::Number(Number::from(7))), E::Bool(true)), (K::Identifier(ident("elems")), obj(vec![(K::Identifier(ident("a")), E::String("1".to_string()))]))]) }), Some("copy = { 7 = true\n elems = { a = \"1\"\n }\n }\n"), &[])
}

fn c437(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c437(x), Structure::Block(Block { identifier: ident("é"), labels: vec![L::String("${var.a}".to_string()), L::String("c".to_string()), L::String("a.b".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(l.iter().map(|n| E::Number(Number::from(*n))).collect()) }), Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![(K::Expression(E::String(format!("k{u}"))), obj(vec![(K::Identifier(ident("b")), o.map_or(E::Null, |n| E::Number(Number::from(n))))])), (K::Expression(E::Number(Number::from(-8))), E::String("a".to_string())), (K::Identifier(ident("elems")), E::Array(vec![E::Number(Number::from(u / 2 + 1)), E::Number(Number::from(167)), E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))])])), (K::Identifier(ident("if")), E::Bool(false))]) })]) }), None, &[167])
}

fn c438(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c438(x), Structure::Attribute(Attribute { key: ident("match"), expr: E::String("q\"x".to_string()) }), Some("match = \"q\\\"x\"\n"), &[])
}

fn c439(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c439(x), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("tab\tnew\nline".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::Array(vec![]) }), Structure::Block(Block { identifier: ident("self"), labels: vec![L::Identifier(ident("copy")), L::String("1".to_string()), L::Identifier(ident("long_identifier_of_many_bytes"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("null"), expr: E::String("true".to_string()) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::String("a.b".to_string()) })]) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Array(vec![E::Number(Number::from(-3)), E::Number(Number::from(-3)), E::Null, E::Number(Number::from(-3))]) })]) }), Some("resource \"tab\\tnew\\nline\" \"q\\\"x\" {\nx1 = []\nself copy \"1\" long_identifier_of_many_bytes {\nnull = \"true\"\n_u = \"a.b\"\n}\ncopy = false\na = [-3, -3, null, -3,]\n}\n"), &[])
}

fn c440(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c440(x), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Number(Number::from(u / 2 + 1)))]), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::String("-".to_string())), (K::Identifier(ident("b")), we.clone())]), E::Null]) }), None, &[])
}

fn c441(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c441(x), Structure::Block(Block { identifier: ident("resource"), labels: vec![L::String("{}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::String("a".to_string()) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Bool(b) })]) }), None, &[])
}

fn c442(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c442(x), Structure::Attribute(Attribute { key: ident("object"), expr: obj(vec![]) }), Some("object = { }\n"), &[])
}

fn c443(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c443(x), Structure::Block(Block { identifier: ident(id), labels: vec![L::String("$${x}".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: E::Number(Number::from(7u8)) })]) }), None, &[])
}

fn c444(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c444(x), Structure::Attribute(Attribute { key: ident("type"), expr: E::Bool(false) }), Some("type = false\n"), &[])
}

fn c445(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c445(x), Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("foo"), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(-3)), o.map_or(E::Null, |n| E::Number(Number::from(n))), e.clone(), E::String(st.to_string())])]) }), Structure::Attribute(Attribute { key: ident("a"), expr: E::Number(Number::from(169)) })]) }), None, &[169])
}

fn c446(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c446(x), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from_f64(f).unwrap()) }), None, &[])
}

fn c447(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c447(x), Structure::Block(Block { identifier: ident("value"), labels: vec![L::String("é日本😀".to_string()), L::String("q\"x".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::Identifier(ident("key"))], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::String("$${x}".to_string()) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from_f64(0.25).unwrap()) })]) }), Structure::Attribute(Attribute { key: ident("foo"), expr: E::String("//".to_string()) }), Structure::Block(Block { identifier: ident("match"), labels: vec![L::String("%%".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![obj(vec![(K::Identifier(ident("if")), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(7))), E::Null), (K::Expression(E::String("é日本😀".to_string())), E::Null)]), E::Number(Number::from(-3)), E::Number(Number::from(-3))]) }), Structure::Attribute(Attribute { key: ident("resource"), expr: E::Bool(false) })]) }), Structure::Block(Block { identifier: ident("type"), labels: vec![L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("key"), expr: E::String("-".to_string()) }), Structure::Attribute(Attribute { key: ident("b"), expr: E::Array(vec![E::Array(vec![E::Number(Number::from(42)), E::Null, E::Number(Number::from(-3))]), E::Array(vec![E::Null, E::Bool(false)]), E::Array(vec![E::Bool(false)])]) }), Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: E::Array(vec![E::Number(Number::from(-3))]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::String("${var.a}".to_string()) })]) })]) }), None, &[])
}

fn c448(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c448(x), Structure::Attribute(Attribute { key: ident("x1"), expr: E::Array(vec![obj(vec![(K::Expression(E::Number(Number::from(7))), E::Null)]), E::Array(vec![E::String("%{ if x }".to_string()), E::Number(Number::from(-3)), E::String("tab\tnew\nline".to_string()), E::Null]), obj(vec![(K::Expression(E::Number(Number::from(7))), E::Bool(true)), (K::Expression(E::String("${var.a}".to_string())), E::String("a".to_string()))])]) }), None, &[])
}

fn c449(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c449(x), Structure::Block(Block { identifier: ident("elems"), labels: vec![L::Identifier(ident("match")), L::String("b c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(170)) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Expression(E::String("c".to_string())), obj(vec![(K::Expression(E::Number(Number::from(-8))), E::Number(Number::from(171))), (K::Expression(E::String("back\\slash".to_string())), E::Number(Number::from(-3))), (K::Expression(E::Number(Number::from(u))), E::Number(Number::from(u / 2 + 1))), (K::Expression(E::String("//".to_string())), E::Null)])), (K::Expression(E::String("a".to_string())), E::Array(vec![E::Number(Number::from_f64(f).unwrap()), E::Number(Number::from(2147483647))]))]) })]) }), None, &[170, 171])
}

fn c450(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c450(x), Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Number(Number::from(42)) }), Some("bar_baz = 42\n"), &[])
}

fn c451(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c451(x), Structure::Block(Block { identifier: ident("b"), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident(id), labels: vec![L::String("b c".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("x1"), expr: E::String("back\\slash".to_string()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from(172)) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Number(Number::from(173)) })]) }), Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::Number(Number::from(174))]) }), Structure::Block(Block { identifier: ident("value"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("value"), expr: E::Array(vec![E::Null, E::Bool(b)]) }), Structure::Attribute(Attribute { key: ident(id), expr: obj(vec![]) }), Structure::Attribute(Attribute { key: ident("match"), expr: E::Array(vec![obj(vec![(K::Identifier(ident("foo")), E::Bool(false))])]) })]) })]) }), None, &[172, 173, 174])
}

fn c452(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c452(x), Structure::Attribute(Attribute { key: ident("é"), expr: e.clone() }), None, &[])
}

fn c453(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c453(x), Structure::Block(Block { identifier: ident("copy"), labels: vec![L::Identifier(ident("key")), L::String("q\"x".to_string()), L::String("a.b".to_string())], body: bod(vec![Structure::Block(Block { identifier: ident("bar_baz"), labels: vec![L::String("-".to_string()), L::String("a".to_string()), L::String("".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::Bool(false) }), Structure::Attribute(Attribute { key: ident("_u"), expr: E::Number(Number::from_f64(0.25).unwrap()) }), Structure::Attribute(Attribute { key: ident("copy"), expr: E::Number(Number::from_f64(1.5).unwrap()) })]) })]) }), Some("copy key \"q\\\"x\" \"a.b\" {\nbar_baz \"-\" \"a\" \"\" {\nmatch = false\n_u = 0.25\ncopy = 1.5\n}\n}\n"), &[])
}

fn c454(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c454(x), Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Expression(E::String(format!("k{u}"))), E::Array(vec![]))]) }), None, &[])
}

fn c455(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c455(x), Structure::Block(Block { identifier: ident("a"), labels: vec![L::String(s.clone()), L::String("-".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("match"), expr: E::String(s.clone()) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(18446744073709551615u64)), E::Array(vec![E::Number(Number::from(s.len() as u64))]), E::String(format!("{s}-{u}")), obj(vec![(K::Identifier(ident("object")), E::String(st.to_string())), (K::Identifier(ident("b")), E::String(format!("{s}-{u}"))), (K::Expression(E::String("-".to_string())), E::String("1".to_string()))])]) }), Structure::Attribute(Attribute { key: ident("object"), expr: E::Array(vec![E::String(format!("{s}-{u}")), E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())])]) })]) }), None, &[])
}

fn c456(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c456(x), Structure::Attribute(Attribute { key: ident("object"), expr: o.map_or(E::Null, |n| E::Number(Number::from(n))) }), None, &[])
}

fn c457(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c457(x), Structure::Block(Block { identifier: ident(id), labels: vec![], body: bod(vec![Structure::Block(Block { identifier: ident("é"), labels: vec![L::String("a".to_string())], body: bod(vec![Structure::Attribute(Attribute { key: ident("bar_baz"), expr: E::Array(vec![E::Array(vec![E::Array(vec![E::Number(Number::from(u)), E::String(s.clone())]), E::Bool(true)]), E::String(st.to_string()), obj(vec![(K::Expression(E::String(format!("k{u}"))), E::String("#".to_string()))]), obj(vec![(K::Identifier(ident("if")), E::String(st.to_string()))])]) }), Structure::Attribute(Attribute { key: ident(id), expr: E::Array(vec![E::Number(Number::from_f64(f).unwrap()), E::Number(Number::from(u / 2 + 1)), E::Number(Number::from(2147483647)), E::Number(Number::from(2147483647))]) })]) }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Number(Number::from(u)) })]) }), None, &[])
}

fn c458(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c458(x), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: obj(vec![(K::Identifier(ident("true")), E::Number(Number::from(175)))]) }), None, &[175])
}

fn c459(x: &Vars) -> Outcome {
    let Vars { s, st, u, i, f, b, o, l, e, w, we, id, t } = x.clone();
    outcome("structure", || bare::c459(x), Structure::Block(Block { identifier: ident("resource"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("resource"), expr: obj(vec![(K::Identifier(ident("b")), E::Array(vec![])), (K::Identifier(ident("value")), obj(vec![(K::Expression(E::String("lit".to_string())), E::String(s.clone()))])), (K::Expression(E::String("q\"x".to_string())), E::Array(vec![E::Number(Number::from(176))])), (K::Expression(E::String("//".to_string())), obj(vec![(K::Expression(E::String(format!("k{u}"))), we.clone())]))]) }), Structure::Block(Block { identifier: ident("b"), labels: vec![], body: bod(vec![Structure::Attribute(Attribute { key: ident("long_identifier_of_many_bytes"), expr: we.clone() }), Structure::Attribute(Attribute { key: ident(&format!("k{u}")), expr: E::Array(vec![E::Number(Number::from(i)), E::Number(Number::from(1))]) }), Structure::Attribute(Attribute { key: ident("key"), expr: E::Number(Number::from(i)) })]) })]) }), None, &[176])
}

pub const CASES: &[fn(&Vars) -> Outcome] = &[c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c30, c31, c32, c33, c34, c35, c36, c37, c38, c39, c40, c41, c42, c43, c44, c45, c46, c47, c48, c49, c50, c51, c52, c53, c54, c55, c56, c57, c58, c59, c60, c61, c62, c63, c64, c65, c66, c67, c68, c69, c70, c71, c72, c73, c74, c75, c76, c77, c78, c79, c80, c81, c82, c83, c84, c85, c86, c87, c88, c89, c90, c91, c92, c93, c94, c95, c96, c97, c98, c99, c100, c101, c102, c103, c104, c105, c106, c107, c108, c109, c110, c111, c112, c113, c114, c115, c116, c117, c118, c119, c120, c121, c122, c123, c124, c125, c126, c127, c128, c129, c130, c131, c132, c133, c134, c135, c136, c137, c138, c139, c140, c141, c142, c143, c144, c145, c146, c147, c148, c149, c150, c151, c152, c153, c154, c155, c156, c157, c158, c159, c160, c161, c162, c163, c164, c165, c166, c167, c168, c169, c170, c171, c172, c173, c174, c175, c176, c177, c178, c179, c180, c181, c182, c183, c184, c185, c186, c187, c188, c189, c190, c191, c192, c193, c194, c195, c196, c197, c198, c199, c200, c201, c202, c203, c204, c205, c206, c207, c208, c209, c210, c211, c212, c213, c214, c215, c216, c217, c218, c219, c220, c221, c222, c223, c224, c225, c226, c227, c228, c229, c230, c231, c232, c233, c234, c235, c236, c237, c238, c239, c240, c241, c242, c243, c244, c245, c246, c247, c248, c249, c250, c251, c252, c253, c254, c255, c256, c257, c258, c259, c260, c261, c262, c263, c264, c265, c266, c267, c268, c269, c270, c271, c272, c273, c274, c275, c276, c277, c278, c279, c280, c281, c282, c283, c284, c285, c286, c287, c288, c289, c290, c291, c292, c293, c294, c295, c296, c297, c298, c299, c300, c301, c302, c303, c304, c305, c306, c307, c308, c309, c310, c311, c312, c313, c314, c315, c316, c317, c318, c319, c320, c321, c322, c323, c324, c325, c326, c327, c328, c329, c330, c331, c332, c333, c334, c335, c336, c337, c338, c339, c340, c341, c342, c343, c344, c345, c346, c347, c348, c349, c350, c351, c352, c353, c354, c355, c356, c357, c358, c359, c360, c361, c362, c363, c364, c365, c366, c367, c368, c369, c370, c371, c372, c373, c374, c375, c376, c377, c378, c379, c380, c381, c382, c383, c384, c385, c386, c387, c388, c389, c390, c391, c392, c393, c394, c395, c396, c397, c398, c399, c400, c401, c402, c403, c404, c405, c406, c407, c408, c409, c410, c411, c412, c413, c414, c415, c416, c417, c418, c419, c420, c421, c422, c423, c424, c425, c426, c427, c428, c429, c430, c431, c432, c433, c434, c435, c436, c437, c438, c439, c440, c441, c442, c443, c444, c445, c446, c447, c448, c449, c450, c451, c452, c453, c454, c455, c456, c457, c458, c459];
