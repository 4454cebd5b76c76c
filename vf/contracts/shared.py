"""Callee contracts on which a property rests are discharged again by the check of that property.

A caller is checked against the contract of its callee; where the statement of a property includes what the callee guarantees
(the gains of the read-out in the noise budget, the black body in the emission of an element), the callee's contract belongs to
the proof of that property too."""
from ..dsl import contract, CONTRACTS
from . import noise, optics, instruments, numerics, foregrounds, stars, pipeline, output, config, targets, signals, psf, misc  # noqa: F401

RESTS_ON = {
    "C01": "C05.multiaccum_gains",
    "C03": "C24.resampling C17.noise_in_rows",
    "C07": "C28.optical_element",
    "C02": "C17.noise_in_rows C01.shot_noise_columns C01.shot_noise_variance_sum C04.saturation_and_frame_time C05.multiaccum_gains",
    "C04": "C06.max_pixel_signal",
    "C06": "C17.updated_table C17.noise_in_rows",
    "C08": "C14.black_body C07.element_transmission",
    "C09": "C08.element_emission_parameters C26.closed_form C26.circular_beam",
    "C10": "C26.closed_form C26.circular_beam C31.sky_filter C31.all_foregrounds",
    "C11": "C24.resampling C07.channel_transmission C30.quantum_efficiency",
    "C13": "C24.resampling",
    "C15": "C14.black_body",
    "C16": "C14.black_body C28.stellar_models",
    "C19": "C20.task_parameters",
    "C18": "C16.custom_spectrum C16.phoenix_star C20.task_parameters C20.empty_values C17.noise_in_rows",
    "C32": "C28.unknown_channel_class C28.payload_format",
    "C34": "C24.resampling C28.selections",
    "C23": "C28.target_list_format",
    "C28": "C23.other_formats",
    "C31": "C15.zodiacal_light_of_target",
}

for prop, ids in RESTS_ON.items():
    for c in [c for c in CONTRACTS if c.id in ids.split()]:
        contract(prop, c.funcs, stubs=c.stubs, env=c.env, bounds=c.bounds, samples=c.samples, name=c.name, kind=c.kind)(c.fn)
