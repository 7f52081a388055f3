package props

// Registry lists the harnesses for native replay (generated by tools/gen_registry.sh).
var Registry = map[string]func(){
	"C01_long":        C01_long,
	"C01_msg":         C01_msg,
	"C01_poly":        C01_poly,
	"C01_ptxt":        C01_ptxt,
	"C01_sparse":      C01_sparse,
	"C02_crowd":       C02_crowd,
	"C02_decrypt":     C02_decrypt,
	"C02_deep":        C02_deep,
	"C02_long":        C02_long,
	"C02_many":        C02_many,
	"C02_missing":     C02_missing,
	"C02_msg":         C02_msg,
	"C02_partial":     C02_partial,
	"C02_shared":      C02_shared,
	"C03_alias":       C03_alias,
	"C03_dec":         C03_dec,
	"C03_enc":         C03_enc,
	"C03_fresh":       C03_fresh,
	"C03_long":        C03_long,
	"C03_polydec":     C03_polydec,
	"C03_receiver":    C03_receiver,
	"C04_add":         C04_add,
	"C04_crowd":       C04_crowd,
	"C04_deep":        C04_deep,
	"C04_long":        C04_long,
	"C04_many":        C04_many,
	"C04_same":        C04_same,
	"C04_sub":         C04_sub,
	"C05_alpha":       C05_alpha,
	"C05_crowd":       C05_crowd,
	"C05_deep":        C05_deep,
	"C05_ksw":         C05_ksw,
	"C05_kswagain":    C05_kswagain,
	"C05_long":        C05_long,
	"C05_many":        C05_many,
	"C05_mul":         C05_mul,
	"C05_scales":      C05_scales,
	"C05_square":      C05_square,
	"C05_two":         C05_two,
	"C06_crowd":       C06_crowd,
	"C06_deep":        C06_deep,
	"C06_many":        C06_many,
	"C06_msg":         C06_msg,
	"C06_mul":         C06_mul,
	"C06_twice":       C06_twice,
	"C07_alpha":       C07_alpha,
	"C07_crowd":       C07_crowd,
	"C07_dedicated":   C07_dedicated,
	"C07_deep":        C07_deep,
	"C07_history":     C07_history,
	"C07_keygen":      C07_keygen,
	"C07_ksw":         C07_ksw,
	"C07_long":        C07_long,
	"C07_many":        C07_many,
	"C07_rotate":      C07_rotate,
	"C07_size":        C07_size,
	"C08_alpha":       C08_alpha,
	"C08_conj":        C08_conj,
	"C08_crowd":       C08_crowd,
	"C08_deep":        C08_deep,
	"C08_history":     C08_history,
	"C08_ksw":         C08_ksw,
	"C08_long":        C08_long,
	"C08_many":        C08_many,
	"C08_size":        C08_size,
	"C09_after":       C09_after,
	"C09_alpha":       C09_alpha,
	"C09_crowd":       C09_crowd,
	"C09_crowdrot":    C09_crowdrot,
	"C09_deep":        C09_deep,
	"C09_deeprot":     C09_deeprot,
	"C09_long":        C09_long,
	"C09_many":        C09_many,
	"C09_mul":         C09_mul,
	"C09_one":         C09_one,
	"C09_onealpha":    C09_onealpha,
	"C09_reuse":       C09_reuse,
	"C09_rotalpha":    C09_rotalpha,
	"C09_rotate":      C09_rotate,
	"C09_square":      C09_square,
	"C10_deep":        C10_deep,
	"C10_errors":      C10_errors,
	"C10_history":     C10_history,
	"C10_inplace":     C10_inplace,
	"C10_into":        C10_into,
	"C10_long":        C10_long,
	"C10_new":         C10_new,
	"C10_size":        C10_size,
	"C11_const":       C11_const,
	"C11_deep":        C11_deep,
	"C11_drop":        C11_drop,
	"C11_inplace":     C11_inplace,
	"C11_long":        C11_long,
	"C11_old":         C11_old,
	"C11_size":        C11_size,
	"C11_zero":        C11_zero,
	"C12_effects":     C12_effects,
	"C12_history":     C12_history,
	"C12_long":        C12_long,
	"C12_mutate":      C12_mutate,
	"C12_order":       C12_order,
	"C13_conj":        C13_conj,
	"C13_default":     C13_default,
	"C13_gauss":       C13_gauss,
	"C13_independent": C13_independent,
	"C13_pk":          C13_pk,
	"C13_rlk":         C13_rlk,
	"C13_rot":         C13_rot,
	"C13_secret":      C13_secret,
	"C13_sparsepair":  C13_sparsepair,
	"C13_swk":         C13_swk,
	"C14_decompose":   C14_decompose,
	"C14_deep":        C14_deep,
	"C14_history":     C14_history,
	"C14_hoisted":     C14_hoisted,
	"C14_product":     C14_product,
	"C14_split":       C14_split,
	"C15_deep":        C15_deep,
	"C15_down":        C15_down,
	"C15_downP":       C15_downP,
	"C15_history":     C15_history,
	"C15_inplace":     C15_inplace,
	"C15_size":        C15_size,
	"C15_up":          C15_up,
	"C16_ct":          C16_ct,
	"C16_keycopy":     C16_keycopy,
	"C16_keysets":     C16_keysets,
	"C16_pad":         C16_pad,
	"C16_rotset":      C16_rotset,
	"C16_sets":        C16_sets,
	"C16_zero":        C16_zero,
	"C20_beta":        C20_beta,
	"C20_ckks":        C20_ckks,
	"C20_crs":         C20_crs,
	"C20_digits":      C20_digits,
	"C20_distinct":    C20_distinct,
	"C21_errors":      C21_errors,
	"C21_mask":        C21_mask,
	"C21_msg":         C21_msg,
	"C22_two":         C22_two,
	"C23_conj":        C23_conj,
	"C23_mul":         C23_mul,
	"C23_rot":         C23_rot,
	"C24_crypt":       C24_crypt,
	"C24_eval":        C24_eval,
	"C24_keys":        C24_keys,
}
