//@include lemmas.inc
broadcast use {stdspec::group_std, base_lemmas::axiom_alloc_limit, base_lemmas::axiom_question_mark, base_lemmas::lemma_skip_skip, base_lemmas::lemma_skip_zero, base_lemmas::lemma_app_assoc, base_lemmas::lemma_app_empty};
