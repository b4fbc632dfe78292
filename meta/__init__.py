PROPS = []
NOT_APPLICABLE = []

ENGINE = ("path-partitioned must-fact dataflow over the type-checked syntax tree (value-numbered terms, callees analysed in context, "
          "joins and loop fixpoints; no solver, nothing executed)")


def P(id, title, statement, over, q, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(","), q=" ".join(q.split()),
                      why=" ".join(why.split()), files=files, mech=mech, technique=" ".join(technique.split()), note=" ".join(note.split()), observe=observe))


def NA(id, title, statement, over, q, why, files, mech, reason):
    P(id, title, statement, over, q, why, files, mech, "", "")
    NOT_APPLICABLE.append((id, " ".join(reason.split())))
