// Written by gen_idents.py.
#[macro_export]
macro_rules! idents {
    ($m:ident) => {
        $m! {
            G0 { a B aa aB a1 Ba BB B1 __ _1 aaa aaB aa1 aBa aBB aB1 a_a a1a a1B a11 Baa BaB Ba1 BBa BBB BB1 B_a B1a B1B B11 _1a _1B _11 aaaa aaaB aaa1 aaBa aaBB aaB1 aa_a aa1a aa1B aa11 aBaa aBaB aBa1 aBBa aBBB aBB1 aB_a aB1a aB1B aB11 a_aa a_aB a_a1 a1aa a1aB a1a1 a1Ba a1BB a1B1 a1_a a11a a11B a111 Baaa BaaB Baa1 BaBa BaBB BaB1 Ba_a Ba1a Ba1B Ba11 BBaa BBaB BBa1 BBBa BBBB BBB1 BB_a BB1a BB1B BB11 B_aa B_aB B_a1 B1aa B1aB B1a1 B1Ba B1BB B1B1 B1_a B11a B11B B111 _1aa _1aB _1a1 _1Ba _1BB _1B1 _1_a _11a _11B _111 field_name FIELD_NAME f1_2x ident9 ABCdef abcDEF naïve_été Éa_ß ßa ǆx δοκιμή 文字 aİb }
            G1 { a_ B_ aa_ aB_ a_1 Ba_ BB_ B_1 ___ __1 aaa_ aaB_ aa_1 aBa_ aBB_ aB_1 a_a_ a_1a a_1B a_11 Baa_ BaB_ Ba_1 BBa_ BBB_ BB_1 B_a_ B_1a B_1B B_11 __1a __1B __11 fieldName }
            G2 { _a _B a_B a1_ B_B B1_ _aa _Ba _1_ aa_B aa1_ aB_B aB1_ a_Ba a__a a1a_ a1B_ a1_1 Ba_B Ba1_ BB_B BB1_ B_Ba B__a B1a_ B1B_ B1_1 _aaa _Baa ____ _1a_ _1B_ _1_1 FieldName }
            G3 { a__ B__ _aB _a1 _BB _B1 aa__ a_BB a_B1 a1_B a11_ Ba__ B_BB B_B1 B1_B B11_ _aaB _aa1 _aBa _a_a _a1a _BaB _Ba1 _BBa _B_a _B1a ___1 _1_B _11_ _field__name_ }
            G4 { _a_ _B_ aB__ a__1 BB__ B__1 _aa_ _aBB _aB1 _a1B _a11 _Ba_ _BBB _BB1 _B1B _B11 __1_ }
            G5 { __a __B a_B_ a_1_ B_B_ B_1_ __aa __Ba _1__ }
            G6 { a__B a___ a1__ B__B B___ B1__ }
            G7 { _aB_ _a__ _a_1 _BB_ _B__ _B_1 }
            G8 { _a_B _a1_ _B_B _B1_ __a_ __B_ }
            G9 { __aB __a1 __BB __B1 ___a ___B }
        }
    };
}
