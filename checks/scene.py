"""Small real simulation scenarios, generated from choices, and snapshots of everything a drop exposes publicly."""

from __future__ import annotations

import numpy as np

CHANNELS = ("ideal", "delay", "spatial", "tdl", "cost259", "exponential", "umi", "uma", "rma", "office", "factory", "cdl", "single", "multi")


def gen_spec(ch, max_devices=3, channels=CHANNELS, kinds=("sig", "rrc", "ofdm", "radar"), wide=False, min_devices=1):
    n = min_devices + ch.choose(max_devices + 1 - min_devices)
    links = []
    for _ in range(1 + ch.choose(3)):
        kind = kinds[ch.choose(len(kinds))]
        a, b = ch.choose(n), ch.choose(n)
        links.append(dict(kind=kind, tx=a, rx=b, var=ch.choose(4)))
    for i in range(n):  # every device transmits
        if all(k["tx"] != i for k in links):
            links.append(dict(kind="sig", tx=i, rx=ch.choose(n), var=ch.choose(4)))
    chans = {}
    for i in range(n):
        for j in range(i):
            chans[(j, i)] = channels[ch.choose(len(channels))]
    return dict(
        devices=n,
        antennas=[1] * n,
        links=links,
        channels=chans,
        noise=[(0.0, 1e-6, 0.05)[ch.choose(3)] for _ in range(n)],
        trigger=(None, "offset", "random")[ch.choose(3)] if wide else None,
        seed=ch.choose(1 << 20),
    )


def make_channel(kind, seed, var=None):
    import hermespy.channel as C

    var = seed if var is None or seed is not None else var
    if kind == "ideal":
        return C.IdealChannel(seed=seed)
    if kind == "delay":
        return C.RandomDelayChannel((1e-6, 4e-6), model_propagation_loss=False, seed=seed)
    if kind == "spatial":
        return C.SpatialDelayChannel(seed=seed)
    if kind == "tdl":
        return C.TDL(rms_delay=1e-6, seed=seed)
    if kind == "cost259":
        return C.Cost259(seed=seed)
    if kind == "exponential":
        return C.Exponential(2e-6, 1e-6, seed=seed)
    if kind == "umi":
        return C.UrbanMicrocells(seed=seed)
    if kind == "uma":
        return C.UrbanMacrocells(seed=seed)
    if kind == "rma":
        return C.RuralMacrocells(seed=seed)
    if kind == "office":
        return C.IndoorOffice(seed=seed)
    if kind == "factory":
        return C.IndoorFactory(1000.0, 3000.0, C.FactoryType.SL, seed=seed)
    if kind == "cdl":
        return C.CDL(C.CDLType.A, 1e-7, seed=seed)
    if kind == "single":
        return C.SingleTargetRadarChannel((10, 40) if var % 2 else 30, 1.0, target_azimuth=(0.1, 0.5), target_zenith=0.3, velocity=(1.0, 2.0) if var % 3 else 3.0, target_exists=var % 5 != 0, attenuate=False, seed=seed)
    if kind == "multi":
        c = C.MultiTargetRadarChannel(attenuate=False, seed=seed)
        from hermespy.core.transformation import Transformation
        from hermespy.simulation import StaticTrajectory

        for k in range(1 + var % 3):
            c.add_target(C.VirtualRadarTarget(C.FixedCrossSection(1.0 + k), StaticTrajectory(Transformation.From_Translation(np.array([30.0 * k, 20.0 + 11.0 * k, 3.0])))))
        return c
    raise KeyError(kind)


def coding(link):
    """Coding pipeline of a communication link."""
    from hermespy.fec import BlockInterleaver, CyclicRedundancyCheck, EncoderManager, RepetitionEncoder, Scrambler3GPP, Scrambler80211a

    manager = EncoderManager()
    for c in link.get("coding", ()):
        manager.add_encoder({"crc": lambda: CyclicRedundancyCheck(4, 4), "rep": lambda: RepetitionEncoder(bit_block_size=8, repetitions=3), "int": lambda: BlockInterleaver(8, 2), "s3g": lambda: Scrambler3GPP(), "s80211": lambda: Scrambler80211a(np.array([1, 0, 1, 1, 0, 0, 1]))}[c]())
    return manager


def noisy_chain(n):
    """RF chain whose blocks add noise by themselves."""
    from hermespy.simulation import AWGN, N0
    from hermespy.simulation.rf import RFChain
    from hermespy.simulation.rf.blocks import ADC, DAC, IdealMixer, MixerType, PowerAmplifier

    c = RFChain()
    for _ in range(n):
        dac, up = c.new_block(DAC), c.new_block(IdealMixer, mixer_type=MixerType.UP)
        pa = c.new_block(PowerAmplifier, gain=1.5, noise_model=AWGN(), noise_level=N0(1e-3))
        c.connect(dac.port("o"), up.port("i"))
        c.connect(up.port("o"), pa.port("i"))
    for _ in range(n):
        down, adc = c.new_block(IdealMixer, mixer_type=MixerType.DOWN, noise_model=AWGN(), noise_level=N0(1e-3)), c.new_block(ADC, num_quantization_bits=10)
        c.connect(down.port("o"), adc.port("i"))
    return c


def make_operator(spec, link, rng):
    """Returns (transmit operator, receive operator), possibly identical."""
    from hermespy.core import Signal
    from hermespy.core.operators import SignalReceiver, SignalTransmitter
    from hermespy.modem import ElementType, GridElement, GridResource, OFDMWaveform, PrefixType, RootRaisedCosineWaveform, SimplexLink, SymbolSection
    from hermespy.radar import FMCW, Radar

    v = link["var"]
    nt = spec["antennas"][link["tx"]]
    if link["kind"] == "silence":
        return SignalTransmitter(Signal.Create(np.zeros((nt, 200), dtype=complex), 1e6, 0.0)), SignalReceiver(200)
    if link["kind"] == "sig":
        n = 60 + 11 * v
        samples = rng.normal(size=(nt, n)) + 1j * rng.normal(size=(nt, n))
        return SignalTransmitter(Signal.Create(samples, 1e6, 0.0)), SignalReceiver(n)
    if link["kind"] == "rrc":
        link_op = SimplexLink(encoding=coding(link), waveform=RootRaisedCosineWaveform(num_preamble_symbols=1, num_data_symbols=30 + v, roll_off=0.9, modulation_order=(4, 16, 2, 64)[v]), selected_transmit_ports=[0], selected_receive_ports=[0])
        return link_op, link_op
    if link["kind"] == "ofdm":

        def res(n):
            return GridResource(n, PrefixType.CYCLIC, 0.1, [GridElement(ElementType.DATA, 2), GridElement(ElementType.REFERENCE, 1)])

        structure = [SymbolSection(2, [0, 1]), SymbolSection(3, [2]), SymbolSection(1, [1, 0, 2])][: 1 + v % 3]
        link_op = SimplexLink(encoding=coding(link), waveform=OFDMWaveform(num_subcarriers=12, dc_suppression=False, grid_resources=[res(4), res(2), res(3)], grid_structure=structure, modulation_order=(4, 16)[v % 2]), selected_transmit_ports=[0], selected_receive_ports=[0])
        return link_op, link_op
    if link["kind"] == "radar":
        radar = Radar(FMCW(num_chirps=2 + v, chirp_duration=2e-5, pulse_rep_interval=2.5e-5), selected_transmit_ports=[0], selected_receive_ports=[0])
        return radar, radar
    raise KeyError(link["kind"])


class Scene:
    pass


def build(spec, seed=None, scenario=None):
    from hermespy.core.transformation import Transformation
    from hermespy.simulation import SimulatedUniformArray, SimulationScenario, SimulatedIdealAntenna, RandomTrigger, SampleOffsetTrigger

    rng = np.random.default_rng(spec["seed"])
    sc = Scene()
    sc.spec = spec
    s = sc.scenario = SimulationScenario(seed=spec["seed"] if seed is None else seed) if scenario is None else scenario
    sc.devices = []
    for i in range(spec["devices"]):
        ants = SimulatedUniformArray(SimulatedIdealAntenna, 0.05, (spec["antennas"][i], 1, 1))
        extra = dict(spec.get("extras", {}).get(i, {}))
        kw = {}
        if extra.get("rf") == "x410":
            from hermespy.simulation.rf.presets.ettus.x410 import X410

            kw["rf"] = X410(1e9, spec["antennas"][i], spec["antennas"][i], phase_noise=True)
        elif extra.get("rf") == "noisy":
            kw["rf"] = noisy_chain(spec["antennas"][i])
        elif extra.get("rf") == "default_noise":
            from hermespy.simulation import AWGN, N0

            kw.update(noise_model=AWGN(), noise_level=N0(0.01))
        d = s.new_device(**kw, antennas=ants, carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=2, pose=Transformation.From_Translation(np.array([40.0 * i, 7.0 * i, 1.5 + 8.5 * (i % 2)])))
        if spec["noise"][i]:
            from hermespy.simulation import AWGN, N0

            d.noise_level = N0(spec["noise"][i])
            d.noise_model = AWGN()
        sc.devices.append(d)
    trig = None
    if spec["trigger"] == "offset":
        trig = SampleOffsetTrigger(3)
    elif spec["trigger"] == "random":
        trig = RandomTrigger()
    if trig is not None and not (spec["trigger"] == "random" and any(l["kind"] == "radar" for l in spec["links"])):
        for d in sc.devices:
            d.trigger_model = trig
    sc.tx_ops, sc.rx_ops = [], []
    for link in spec["links"]:
        t, r = make_operator(spec, link, rng)
        if link["kind"] == "radar":
            link = dict(link, rx=link["tx"])
        if not spec.get("unseeded"):
            t.seed = int(rng.integers(1 << 30))
        sc.devices[link["tx"]].transmitters.add(t)
        sc.devices[link["rx"]].receivers.add(r)
        sc.tx_ops.append(t)
        sc.rx_ops.append(r)
    for (i, j), kind in spec["channels"].items():
        s.set_channel(sc.devices[i], sc.devices[j], make_channel(kind, None if spec.get("unseeded") else int(rng.integers(1 << 30)), spec["seed"]))
    return sc


# ---------------------------------------------------------------- snapshots


def sig(x):
    if x is None:
        return None
    return ("signal", [(int(b.offset), np.array(b)) for b in x.blocks], int(x.num_streams), float(x.sampling_rate), float(x.carrier_frequency), float(x.delay))


def arr(x):
    return None if x is None else np.array(x)


def frame_tx(f):
    return ("txframe", sig(f.signal), arr(f.bits).astype(int), arr(f.encoded_bits).astype(int), int(f.bit_block_size), int(f.code_block_size), arr(f.symbols.raw), arr(f.encoded_symbols.raw), float(f.timestamp))


def frame_rx(f):
    return ("rxframe", sig(f.signal), sig(f.decoded_signal), arr(f.symbols.raw), arr(f.decoded_symbols.raw), arr(f.equalized_symbols.raw), arr(f.encoded_bits).astype(int), arr(f.decoded_bits).astype(int), int(f.bit_block_size), int(f.code_block_size), float(f.timestamp))


def transmission(t):
    frames = getattr(t, "frames", None)
    return ("transmission", type(t).__name__, sig(t.signal), None if frames is None else [frame_tx(f) for f in frames])


def reception(r):
    frames = getattr(r, "frames", None)
    out = ["reception", type(r).__name__, sig(r.signal), None if frames is None else [frame_rx(f) for f in frames]]
    cube = getattr(r, "cube", None)
    if cube is not None:
        out.append((arr(cube.data), arr(cube.angle_bins), arr(cube.doppler_bins), arr(cube.range_bins), float(cube.carrier_frequency)))
    return tuple(out)


def trigger(t):
    return None if t is None else (int(t.num_offset_samples), float(t.sampling_rate))


def device_tx(d):
    return ("device_tx", type(d).__name__, float(d.sampling_rate), int(d.num_antennas), float(d.carrier_frequency), [sig(x) for x in d.emerging_signals], [sig(x) for x in d.leaking_signals], trigger(d.trigger_realization), [transmission(t) for t in d.operator_transmissions], sig(d.mixed_signal))


def device_rx(d):
    return (
        "device_rx",
        type(d).__name__,
        [sig(x) for x in d.impinging_signals],
        sig(d.leaking_signal),
        sig(d.baseband_signal),
        bool(d.operator_separation),
        trigger(d.trigger_realization),
        [sig(x) for x in d.operator_inputs],
        [reception(r) for r in d.operator_receptions],
    )


def drop(d):
    """Everything a drop exposes, copied into plain Python and numpy values."""
    return ("drop", type(d).__name__, float(d.timestamp), [device_tx(t) for t in d.device_transmissions], [device_rx(r) for r in d.device_receptions], [type(c).__name__ for c in getattr(d, "channel_realizations", ())], [float(c.gain) for c in getattr(d, "channel_realizations", ())])


def diff(a, b, path=""):
    """First difference between two snapshots, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None:
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            k = np.flatnonzero(np.ravel(a != b))
            return f"{path}: {len(k)} of {a.size} values differ, first {np.ravel(a)[k[0]]} vs {np.ravel(b)[k[0]]}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} elements"
        tag = a[0] if isinstance(a, tuple) and a and isinstance(a[0], str) else ""
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}/{tag}{i}")
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or (a != a and b != b) else f"{path}: {a} vs {b}"
    return None if type(a) is type(b) and a == b else f"{path}: {a!r} vs {b!r}"


def digest(snap):
    import hashlib

    h = hashlib.blake2b(digest_size=12)

    def go(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b"(")
            for y in x:
                go(y)
            h.update(b")")
        else:
            h.update(repr(x).encode())

    go(snap)
    return h.hexdigest()
