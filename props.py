"""What each property rests on: the functions whose contracts carry it and the lemma modules that derive it from them."""

# methods whose name says nothing about the function called; where they do call into the crate, EXTRA_CALLS says so
METHOD_IGNORE = {"next", "size_hint", "fold", "len", "next_back", "fmt", "hash", "cmp", "partial_cmp", "eq", "clone", "default"}

CARD = "card::Card"
RANK = "card::rank::Rank"
SUIT = "card::suit::Suit"
CARDM = "card::"
EVAL = "evaluate::eval::Eval"
META = "evaluate::meta::Meta"
LT = "evaluate::lookup_table::LookupTable"
UT = "evaluate::utils::"
EV = "evaluate::evaluation::"

RANK_TRY = "card::rank::<Rank as TryFrom>::try_from"
SUIT_TRY = "card::suit::<Suit as TryFrom>::try_from"
FROM_STR = "card::<Card as FromStr>::from_str"
NEXT = UT + "<Combinations as Iterator>::next"
FLUSH, UNSUITED = EV + "<Evaluator as Evaluation>::flush_lookup", EV + "<Evaluator as Evaluation>::unsuited_lookup"

EXTRA_CALLS = {
    "card::Card::try_from_chars": [RANK_TRY, SUIT_TRY],
    "card::Card::parse_to_iter": [FROM_STR],
    "card::<Card as Display>::fmt": ["card::rank::<Rank as Display>::fmt", "card::suit::<Suit as Display>::fmt"],
    EV + "six_plus": ["evaluate::meta::<Meta as PartialOrd>::partial_cmp", NEXT],
    EV + "five": [FLUSH, UNSUITED],
    LT + "::flushes_straights_high_cards": [],
    LT + "::multiples": [NEXT],
    "evaluate::eval::<Eval as Display>::fmt": ["evaluate::meta::<Meta as Display>::fmt"],
    "evaluate::meta::<Meta as Display>::fmt": ["evaluate::class::<EvalClass as Display>::fmt"],
    "evaluate::eval::Eval::derived::hash": ["evaluate::meta::<Meta as Hash>::hash"],
    "evaluate::meta::<Meta as Hash>::hash": ["evaluate::hand_rank::PokerHandRank::derived::hash"],
    "evaluate::Evaluator::derived::clone": [LT + "::derived::clone"],
}

TRUSTED = [
    "rustc 1.99, Verus 0.2026.09.13 with vstd's specifications of std, and Z3 are sound",
    "vx copies every function body of /repo/src token for token except for the rewrites it lists per function (extraction_rewrites) and the items it drops (extraction_drops: Debug and Error impls, tests, doc text, attributes)",
    "contracts/00_deps.vc, 01_std.vc and 02_std.vc: assumed contracts on std and on the dependencies (listed under assumed_contracts_found_in_the_text); rand's shuffle is verified, its gen_range assumed",
    "derived PartialEq, Eq, PartialOrd, Ord, Clone and Copy implementations mean field-wise comparison and copying, as the Rust reference says",
    "wrapping, shifting and bitwise machine arithmetic is modelled exactly by the verifier; nothing is treated as mathematical except in ghost code",
]

HANDS = [EV + "evaluate", "evaluate::Evaluator::evaluate", "evaluate::Evaluator::new"]
RULES = ["vxspec", "vxrules", "vxorder", "vxtext"]
ALL = RULES + ["vxbits", "vxtab", "vxcombos", "vxfill", "vxsets", "vxhand", "vxthm"]
ORDER = ["evaluate::meta::<Meta as PartialEq>::eq", "evaluate::meta::<Meta as PartialOrd>::partial_cmp", "evaluate::meta::<Meta as Ord>::cmp",
         EVAL + "::is_better_than", EVAL + "::is_worse_than", EVAL + "::is_equal_to"]
ASKS = [EVAL + "::is_" + q for q in ("high_card", "pair", "two_pair", "three_of_a_kind", "straight", "flush", "full_house", "four_of_a_kind", "straight_flush", "royal_flush")]

PROPS = {
    "C01": dict(proved=True, fns=[CARD + "::new", CARD + "::rank", CARD + "::suit", CARD + "::unique_integer"], lemmas=["vxspec"]),
    "C02": dict(proved=True, fns=[CARDM + "<Card as PartialOrd>::partial_cmp", CARDM + "<Card as Ord>::cmp", CARD + "::derived::hash"], lemmas=["vxspec"]),
    "C03": dict(proved=True, fns=[FROM_STR, CARD + "::try_from_chars", CARD + "::rank_suit_string", RANK + "::as_char", SUIT + "::as_char", RANK_TRY, SUIT_TRY], lemmas=["vxspec"]),
    "C04": dict(proved=True, fns=[FROM_STR, CARD + "::try_from_chars"], lemmas=["vxspec"]),
    "C05": dict(proved=True, fns=[CARD + "::parse_to_iter", CARDM + "<ParseToIter as Iterator>::next", CARDM + "<ParseToIter as Iterator>::size_hint", CARDM + "<ParseToIter as Iterator>::fold", CARDM + "ParseToIter::try_collect", CARDM + "<ParseToIter as ExactSizeIterator>::len", CARDM + "<ParseToIter as DoubleEndedIterator>::next_back"], lemmas=["vxspec", "card::vxc05"]),
    "C06": dict(proved=True, fns=["deck::generate"], lemmas=["vxspec", "vxdeck"]),
    "C07": dict(proved=True, fns=["deck::shuffled_with", "deck::shuffled"], lemmas=["vxspec", "vxdeck", "vxdeps::rand", "vxdeps::rand::prelude"]),
    "C08": dict(proved=True, fns=HANDS, lemmas=ALL + ["vxc08"]),
    "C09": dict(proved=True, fns=HANDS + [EVAL + "::class"], lemmas=ALL + ["vxc09"]),
    "C10": dict(proved=True, fns=HANDS + ORDER, lemmas=ALL + ["vxc10"]),
    "C11": dict(proved=True, fns=HANDS + ORDER, lemmas=ALL + ["vxc11"]),
    "C12": dict(proved=True, fns=HANDS + [EVAL + "::class"], lemmas=ALL + ["vxc12"]),
    "C13": dict(proved=True, fns=ORDER + [EVAL + "::class", EVAL + "::derived::hash"] + HANDS, lemmas=ALL + ["vxc13"]),
    "C14": dict(proved=True, fns=ASKS + [EVAL + "::class"] + HANDS, lemmas=ALL + ["vxc14"]),
    "C15": dict(proved=True, fns=ORDER + HANDS + [EVAL + "::class"], lemmas=ALL + ["vxc15"]),
    "C16": dict(proved=True, fns=ORDER + HANDS + [EVAL + "::class"], lemmas=ALL + ["vxc16"]),
    "C17": dict(proved=True, fns=["evaluate::eval::<Eval as Display>::fmt", EVAL + "::class"], lemmas=["vxspec", "vxtext"]),
    "C18": dict(proved=True, fns=[CARDM + "<Card as Display>::fmt"], lemmas=["vxspec"]),
    "C19": dict(proved=True, fns=["error::<ParseCardError as Display>::fmt", "error::<EvalError as Display>::fmt"], lemmas=["vxspec", "vxerr"]),
    "C20": dict(proved=True, fns=HANDS + ["evaluate::<Evaluator as Default>::default", "evaluate::Evaluator::derived::clone"], lemmas=ALL + ["evaluate::vxc20"]),
    "C21": dict(proved=True, fns=[CARD + "::new", CARD + "::parse_to_iter", FROM_STR, CARDM + "ParseToIter::try_collect"], lemmas=["vxspec", "card::vxc05", "vxc21"],
                trusted=["the macros are expanded by the compiler in the functions of contracts/only/C21.vc: card! for all 52 identifier pairs in both forms, cards! for 1, 2, 4, 7 and 52 identifier pairs in both forms with and without trailing separator, for 2 to 7 strings and for one string, box_cards! for 2 to 7 slices; other numbers of arguments expand by the same repetition",
                         "vx renames .copied( and .chain( in the macro bodies to vx_copied and vx_chain, which carry the assumed contracts of Iterator::copied and Iterator::chain"]),
    "C22": dict(proved=True, fns=HANDS + ORDER, lemmas=ALL + ["vxc22"]),
}

# Functions that are pure and whose every observable effect runs through the evaluation of five cards, the comparison of two
# evaluations, or one or two cards: the search FIVE goes through all of that. A contract of theirs that no longer verifies, on a
# tree where FIVE finds nothing, is a rewrite the proof does not follow, not a violation.
COVERED = [CARD + "::new", CARD + "::rank", CARD + "::suit", CARD + "::unique_integer", RANK + "::as_i32", RANK + "::from_i32", SUIT + "::as_i32", SUIT + "::from_i32",
           LT + "::new", LT + "::flushes_straights_high_cards", LT + "::multiples", LT + "::derived::default",
           UT + "BitSequence::new", UT + "BitSequence::get_next", UT + "card_to_index", UT + "high_rank_from_rank_bits", UT + "prime_product_from_hand", UT + "prime_product_from_rank_bits",
           EV + "five", FLUSH, UNSUITED, EVAL + "::class", EVAL + "::hand_rank", META + "::class", META + "::hand_rank",
           "evaluate::hand_rank::PokerHandRank::is_better_than", "evaluate::hand_rank::PokerHandRank::is_worse_than"] + ORDER

import json, os  # noqa: E402
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")) as f:
    for line in f:
        d = json.loads(line)
        if d["id"] in PROPS:
            PROPS[d["id"]]["title"] = d["title"]

# the theorems: the functions and proofs named after the property in the contracts, and for the others the contracts themselves
import glob, re  # noqa: E402
_text = "".join(open(f).read() for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts", "**", "*.vc"), recursive=True)))
_named = re.findall(r"\bfn (c\d\d_\w+)", _text)
_more = {"C06": ["vxdeck::lemma_deck", "vxdeck::lemma_deck_unique"], "C07": ["vxdeck::lemma_deck_perm"], "C01": ["card::lemma_enc_decode", "card::lemma_card_eq"], "C19": ["vxerr::lemma_dups"]}
for _p, _d in PROPS.items():
    _d["theorems"] = [n for n in _named if n.startswith(_p.lower() + "_")] or ["the contracts of " + ", ".join(_d["fns"])] + _more.get(_p, [])
