"""C33: lengths in option files mean the same whatever unit they are written in.

The contracts of the functions that read lengths are discharged again with the description written in another unit; what is
required of the results stays the same."""
from ..dsl import contract, CONTRACTS
from . import optics, instruments, psf, stars

READERS = """C07.element_transmission C07.channel_transmission C07.channel_path_transmission C08.element_emission_parameters C08.channel_path_emission
C09.self_emission_signal C09.self_emission_through_slit C09.channel_path_signal C10.foreground_signal C10.foreground_through_slit
C11.photometer_star_signal C11.spectrometer_star_signal C12.photometer_single_bin C12.fixed_resolution_bins C12.tabulated_resolution_bins C12.pixel_grid
C16.spectrum_of_target C27.image_file C27.pixel_image C27.paos C29.spectrometer_windows C29.spectrometer_pixel_response C29.photometer_window
C29.photometer_pixel_response C30.quantum_efficiency""".split()


def in_another_unit(f):
    def run(S):
        S.ghost["U"] = S.choose("length unit", ["nm", "mm"])
        return f(S)
    run.__name__ = f.__name__
    return run


for c in [c for c in CONTRACTS if c.id in READERS]:
    contract("C33", c.funcs, stubs=c.stubs, env=c.env, bounds=c.bounds, samples=max(20, c.samples // 2), name=c.name + "_units", kind=c.kind)(in_another_unit(c.fn))
