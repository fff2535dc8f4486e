"""Model of fuzzy matching: SCORES maps (query, choice) to the similarity 0..100 (other pairs: 100 if equal, else 0)."""
import vf

SCORES = {}
CALLS = []


def _items(choices):
    if isinstance(choices, dict):
        return [(k, v) for k, v in choices.items()]
    return list(enumerate(list(vf.iterable(choices))))


def _score(query, choice):
    return SCORES.get((query, choice), 100.0 if query == choice else 0.0)


def extract(query, choices, *, scorer=None, processor=None, limit=5, score_cutoff=None, score_hint=None, scorer_kwargs=None):
    if scorer is not None or processor is not None:
        vf.not_modelled("scorer of a fuzzy search")
    CALLS.append((query, limit, score_cutoff))
    found = []
    for k, c in _items(choices):
        if c is None:
            continue
        s = _score(query, c)
        if score_cutoff is None or s >= score_cutoff:
            found.append((c, s, k))
    out = []
    while found and (limit is None or len(out) < limit):
        best = 0
        for i in range(len(found)):
            if found[i][1] > found[best][1]:
                best = i
        out.append(found[best])
        del found[best]
    return out


def extract_iter(query, choices, *, scorer=None, processor=None, score_cutoff=None, score_hint=None, scorer_kwargs=None):
    if scorer is not None or processor is not None:
        vf.not_modelled("scorer of a fuzzy search")
    for k, c in _items(choices):
        if c is not None:
            s = _score(query, c)
            if score_cutoff is None or s >= score_cutoff:
                yield (c, s, k)


def extractOne(query, choices, *, scorer=None, processor=None, score_cutoff=None, score_hint=None, scorer_kwargs=None):
    r = extract(query, choices, scorer=scorer, processor=processor, limit=1, score_cutoff=score_cutoff)
    return r[0] if r else None
