"""property -> [(area, regex over the function keys the property rests on; None: all)]"""
TESTS = r"assert|is_zero|is_eq|into_bool|CBool\|(c_|into_num|from_const)"
PLAN = {
 "C01": [("native_num", None), ("num", r"^(?!.*(assert_|is_zero|is_eq|switch|if_else|CBool)).*$")],
 "C02": [("num", TESTS)],
 "C03": [("num", r"switch|if_else"), ("mux", None)],
 "C04": [("bitit", None), ("bitify", None)],
 "C05": [("bitit", None), ("bitify", r"comp_constant|c_into_bits_le$")],
 "C06": [("pos", None), ("cpos", None)],
 "C07": [("merkle", None), ("cmerkle", r"root"), ("pos", r"\|poseidon$"), ("cpos", r"c_poseidon$")],
 "C08": [("edw", None)],
 "C09": [("smul", None)],
 "C10": [("cecc", r"^(?!.*\|Signal)")],
 "C11": [("cmul", r"mul"), ("mux", None)],
 "C12": [("cmul", r"subgroup")],
 "C13": [("h2c", None)],
 "C14": [("eddsa", None), ("smul", r"EdwardsPoint\|"), ("pos", r"poseidon")],
 "C15": [("ceddsa", None), ("cmul", r"subgroup_decompress|mul$"), ("cpos", r"c_poseidon")],
 "C16": [("native_num", None), ("intview", None), ("bitit", None), ("conv", None)],
 "C17": [("borsh", r"native::num"), ("serd", None), ("serv", r"erialize")],
 "C18": [("ptbn", None), ("ptbls", None), ("borsh", r"groth16"), ("tvkio", None)],
 "C19": [("groth", None), ("gcs", None)],
 "C21": [("sigs", None), ("cecc", r"\|Signal"), ("cmerkle", r"\|Signal")],
 "C22": [("num", r"inputize|linearize"), ("sigs", r"inputize|linearize|iter|index"), ("cecc", r"inputize|linearize"), ("cmerkle", r"inputize|linearize")],
 "C23": [("seedbox", None), ("posnew", None)],
 "C26": [("testcs", None)],
}
