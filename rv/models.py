"""How each estimator of the public interface is driven and read."""
import numpy as np
import girth
from girth import multidimensional as md  # noqa: F401

from rv import ref

# family: form of the returned parameters
MML = {
    "twopl_mml": dict(fn=girth.twopl_mml, family="2pl", dist=True, lut=True, bounds=(0.2, 5.0)),
    "grm_mml": dict(fn=girth.grm_mml, family="grm", dist=True, lut=True, bounds=(0.2, 5.0)),
    "twopl_mml_eap": dict(fn=girth.twopl_mml_eap, family="2pl", dist=True, lut=False,
                          bounds=(0.25, 5.0)),
    "grm_mml_eap": dict(fn=girth.grm_mml_eap, family="grm", dist=True, lut=False,
                        bounds=(0.25, 5.0)),
    "pcm_mml": dict(fn=girth.pcm_mml, family="pcm", dist=True, lut=False, bounds=(0.25, 4.0)),
    "gum_mml": dict(fn=girth.gum_mml, family="gum", dist=True, lut=False, bounds=(0.25, 4.0)),
}


def item_probs(family, result, theta, i):
    a = np.asarray(result["Discrimination"])
    if family == "gum":
        return ref.p_gum(theta, result["Delta"][i], result["Tau"][i], a[i])
    b = np.atleast_1d(np.asarray(result["Difficulty"])[i])
    if family == "3pl":
        return ref.p_dich(theta, b[0], a[i], np.asarray(result["Guessing"])[i])
    if family == "2pl":
        return ref.p_dich(theta, b[0], np.broadcast_to(a, (i + 1,) if a.ndim == 0 else a.shape)[i])
    if family == "grm":
        return ref.p_grm(theta, b, a[i])
    if family == "pcm":
        return ref.p_pcm(theta, b, a[i])
    if family == "md":
        return ref.p_mgrm(theta, b, a[i])
    raise KeyError(family)


def all_probs(family, result, theta, n_items):
    return [item_probs(family, result, theta, i) for i in range(n_items)]


def latent_weight(result, options, null=False):
    """Density times quadrature weight in force for a fit."""
    theta, w = ref.quad_of(options)
    if options and options.get("estimate_distribution") and not null:
        return theta, np.asarray(result["LatentPDF"].cubic_splines[-1](theta)) * w
    return theta, np.asarray(ref.prior_of(options)(theta)) * w


def constant_item_finding(item, hard, lut):
    """KF2: which constant items the graded family is known to place at the wrong end.

    hard: nobody scores above the lowest category of the data set.
    """
    wrong = (item == 0 or not hard) if lut else (hard and item > 0)
    return "KF2-CONSTANT-ITEM" if wrong else None
