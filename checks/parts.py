"""Richly configured real simulation scenarios: every part is chosen from a catalogue by name (see c14)."""

from __future__ import annotations

import numpy as np

from checks import scene as S

ANTENNAS = ("ideal", "patch", "linear", "custom")
WAVEFORMS = ("rrc", "rc", "rect", "fmcw", "chirp", "ofdm", "ofdm_pilot", "ocdm", "otfs")
EQUALIZERS = ("none", "zf", "mmse")
AMPS = ("linear", "clipping", "rapp", "saleh", "custom", "none")
EXTRA_BLOCKS = ("shift", "hpf", "none")
COUPLINGS = ("perfect", "impedance")
ISOLATIONS = ("perfect", "specific", "leakage")
TRIGGERS = ("static", "samples", "time", "random", "normal")
TRAJECTORIES = ("pose", "static", "linear")
NOISES = ("none", "n0", "thermal")
CODINGS = ((), (), ("crc",), ("rep",), ("int",), ("crc", "int", "rep"), ("s3g",), ("s80211", "rep"))
PRECODINGS = ("none", "sc", "mrc", "alamouti", "dft")
PROCESSING = ("none", "beamform", "split")


def pick(ch, options):
    return options[ch.choose(len(options))]


def gen_spec(ch):
    n = 1 + ch.choose(2)
    devices = []
    for i in range(n):
        ants = 1 if ch.flag(0.75) else 2
        devices.append(
            dict(
                ants=ants,
                antenna=pick(ch, ANTENNAS),
                trajectory=pick(ch, TRAJECTORIES),
                coupling=pick(ch, COUPLINGS),
                isolation=pick(ch, ISOLATIONS),
                noise=pick(ch, NOISES),
                rf=None if ch.flag(0.4) else dict(amp=pick(ch, AMPS), extra=pick(ch, EXTRA_BLOCKS), bits=(None, 6, 12)[ch.choose(3)], gain=pick(ch, ("none", "fixed", "agc")), pn=ch.flag(0.3), mixer=pick(ch, ("ideal", "lo")), noisy=ch.flag(0.4), partial=ch.flag(0.15)),
                trigger=ch.choose(2),
                scale=(0.5, 1.0, 3.0)[ch.choose(3)],
            )
        )
    ops = []
    for i in range(n):
        for _ in range(1 + ch.choose(2)):
            kind = pick(ch, ("modem", "modem", "duplex", "split", "radar", "signal", "silent", "jcas"))
            ops.append(
                dict(
                    kind=kind,
                    tx=i,
                    rx=ch.choose(n),
                    wave=pick(ch, WAVEFORMS),
                    eq=pick(ch, EQUALIZERS),
                    est=ch.flag(0.5),
                    sync=ch.flag(0.3),
                    coding=pick(ch, CODINGS),
                    order=(2, 4, 16)[ch.choose(3)],
                    precoding=pick(ch, PRECODINGS),
                    detector=pick(ch, ("none", "threshold", "max")),
                    beamformer=pick(ch, ("none", "conventional", "capon")),
                    var=ch.choose(4),
                    stream_bits=ch.flag(0.1),
                )
            )
    over = 1 + ch.choose(2)
    for o in ops:
        # only complete port selections are supported by devices with several ports
        if max(devices[o["tx"]]["ants"], devices[o["rx"]]["ants"]) > 1:
            o["kind"] = "signal"
        elif o["kind"] in ("radar", "silent") and any(d["noise"] == "thermal" for d in devices):
            o["kind"] = "modem"
    channels = {(j, i): pick(ch, ("ideal", "spatial", "spatial", "tdl", "exponential", "single")) for i in range(n) for j in range(i)}
    return dict(oversampling=over, devices=devices, channels=channels, ops=ops, triggers=[pick(ch, TRIGGERS) for _ in range(2)], seed=ch.choose(1 << 20))


def element(kind, mode):
    from hermespy.simulation import SimulatedDipole, SimulatedIdealAntenna, SimulatedLinearAntenna, SimulatedPatchAntenna

    c = dict(ideal=SimulatedIdealAntenna, dipole=SimulatedDipole, patch=SimulatedPatchAntenna, linear=SimulatedLinearAntenna, custom=SimulatedIdealAntenna)[kind]
    return c(mode)


def array(d):
    from hermespy.core import AntennaMode, Transformation
    from hermespy.simulation import SimulatedCustomArray, SimulatedDipole, SimulatedIdealAntenna, SimulatedLinearAntenna, SimulatedPatchAntenna, SimulatedUniformArray

    if d["antenna"] == "custom":
        a = SimulatedCustomArray()
        for k in range(d["ants"]):
            e = (SimulatedIdealAntenna, SimulatedDipole)[k % 2](AntennaMode.DUPLEX)
            e.pose = Transformation.From_Translation(np.array([0.04 * k, 0.01, 0.0]))
            a.add_antenna(e)
        return a
    c = dict(ideal=SimulatedIdealAntenna, dipole=SimulatedDipole, patch=SimulatedPatchAntenna, linear=SimulatedLinearAntenna)[d["antenna"]]
    if d["antenna"] == "linear":
        c = SimulatedLinearAntenna(AntennaMode.DUPLEX, 0.3)
    return SimulatedUniformArray(c, 0.05, (d["ants"], 1, 1))


def amplifier(kind, chain, noise):
    from hermespy.simulation.rf.blocks import amps as A

    kw = dict(noise) if noise else {}
    if kind == "linear":
        return chain.add_block(A.PowerAmplifier(gain=1.3, **kw))
    if kind == "clipping":
        return chain.add_block(A.ClippingPowerAmplifier(0.9, gain=1.2, **kw))
    if kind == "rapp":
        return chain.add_block(A.RappPowerAmplifier(1.5, gain=1.1, **kw))
    if kind == "saleh":
        return chain.add_block(A.SalehPowerAmplifier(1.1, 0.4, 0.2, 0.3, gain=0.9, **kw))
    if kind == "custom":
        x = np.linspace(0, 2, 5)
        return chain.add_block(A.CustomPowerAmplifier(x, 0.9 * x, 0.1 * x, gain=1.05, **kw))
    coeff = np.array([[1.0, 0.1], [0.05j, 0.01]])
    if kind == "memory":
        return chain.add_block(A.MemoryPolynomialPowerAmplifier(coeff, gain=1.1, **kw))
    return chain.add_block(A.MemoryCTPolynomialPowerAmplifier(coeff, gain=1.1, **kw))


def chain(rf, n):
    from hermespy.simulation import AWGN, N0
    from hermespy.simulation.rf import RFChain
    from hermespy.simulation.rf.blocks import ADC, DAC, HPF, AutomaticGainControl, Gain, IdealMixer, Mixer, MixerType, Shift, Source, Split, Sum
    from hermespy.simulation.rf.noise.phase_noise import OscillatorPhaseNoise
    from hermespy.simulation.rf.blocks.ad import GainControlType, QuantizerType

    c = RFChain()
    noise = dict(noise_model=AWGN(), noise_level=N0(1e-4)) if rf["noisy"] else {}

    def local(mt):
        if rf["mixer"] == "ideal":
            return c.add_block(IdealMixer(mixer_type=mt, **noise)), None
        m = c.add_block(Mixer(mixer_type=mt, **noise))
        lo = c.add_block(Source(0.0, phase_noise=OscillatorPhaseNoise(K0=1e-9, K2=1e-4, K3=1e-10) if rf["pn"] else None))
        c.connect(lo.port("o"), m.port("lo"))
        return m, lo

    for _ in range(n):
        dac = c.add_block(DAC(rf["bits"], **noise))
        up, _lo = local(MixerType.UP)
        c.connect(dac.port("o"), up.port("i"))
        last = up
        if rf["extra"] == "shift":
            s = c.add_block(Shift(0.7))
            c.connect(last.port("o"), s.port("i"))
            last = s
        elif rf["extra"] == "hpf":
            s = c.add_block(HPF(1e3))
            c.connect(last.port("o"), s.port("i"))
            last = s
        elif rf["extra"] == "splitsum":
            sp, su = c.add_block(Split(2)), c.add_block(Sum(2))
            c.connect(last.port("o"), sp.port("i"))
            for k in range(2):
                c.connect(sp.port("o")[k], su.port("i")[k])
            last = su
        if rf["amp"] != "none":
            pa = amplifier(rf["amp"], c, noise)
            c.connect(last.port("o"), pa.port("i"))
    gain = None
    if rf["gain"] == "fixed":
        gain = Gain(2.0, True)
    elif rf["gain"] == "agc":
        gain = AutomaticGainControl(GainControlType.RMS_AMPLITUDE, 0.8, True)
    for _ in range(n):
        down, _lo = local(MixerType.DOWN)
        adc = c.add_block(ADC(rf["bits"], gain, (QuantizerType.MID_TREAD, QuantizerType.MID_RISER)[n % 2], **noise))
        c.connect(down.port("o"), adc.port("i"))
    return c


def trajectory(kind, i):
    from hermespy.core import Transformation
    from hermespy.simulation import LinearTrajectory, StaticTrajectory

    a = Transformation.From_RPY(np.array([0.1 * i, 0.2, 0.3]), np.array([40.0 * i, 7.0, 1.5 + i]))
    if kind == "pose":
        return None, a
    if kind == "static":
        return StaticTrajectory(a, np.array([1.0, 2.0, 0.5])), None
    return LinearTrajectory(a, Transformation.From_Translation(np.array([60.0 * i + 3, -9.0, 2.0])), 2.0, 0.25), None


def coder(names):
    from hermespy.fec import BlockInterleaver, CyclicRedundancyCheck, EncoderManager, RepetitionEncoder, Scrambler3GPP, Scrambler80211a

    m = EncoderManager()
    for c in names:
        m.add_encoder(
            dict(
                crc=lambda: CyclicRedundancyCheck(4, 4),
                rep=lambda: RepetitionEncoder(bit_block_size=8, repetitions=3),
                int=lambda: BlockInterleaver(8, 2),
                s3g=lambda: Scrambler3GPP(),
                s80211=lambda: Scrambler80211a(np.array([1, 0, 1, 1, 0, 0, 1])),
            )[c]()
        )
    return m


def waveform(o):
    import hermespy.modem as M
    from hermespy.modem import ElementType, GridElement, GridResource, GuardSection, PrefixType, SymbolSection

    k, v, n = o["wave"], o["var"], o["order"]
    if k in ("rrc", "rc", "rect", "fmcw"):
        kw = dict(num_preamble_symbols=2 + v, num_data_symbols=24 + v, num_postamble_symbols=v % 2, pilot_rate=4 if v == 2 else 0, guard_interval=(0.0, 3e-6)[v % 2], modulation_order=n)
        if v == 3:
            kw.update(pilot_symbol_sequence=M.CustomPilotSymbolSequence(np.array([1.0, 1j, -1.0])), repeat_pilot_symbol_sequence=True)
        if k == "rrc":
            w = M.RootRaisedCosineWaveform(roll_off=0.3 + 0.1 * v, filter_length=8 + 2 * v, **kw)
        elif k == "rc":
            w = M.RaisedCosineWaveform(roll_off=0.3 + 0.1 * v, **kw)
        elif k == "rect":
            w = M.RectangularWaveform(**kw)
        else:
            w = M.FMCWWaveform(num_samples_per_chirp=8 + v, **kw)
        if o["est"]:
            w.channel_estimation = M.SingleCarrierLeastSquaresChannelEstimation()
        if o["eq"] == "zf":
            w.channel_equalization = M.SingleCarrierZeroForcingChannelEqualization()
        elif o["eq"] == "mmse":
            w.channel_equalization = M.SingleCarrierMinimumMeanSquareChannelEqualization()
        if o["sync"]:
            w.synchronization = M.SingleCarrierCorrelationSynchronization(0.7, 0.4)
        return w
    if k == "chirp":
        w = M.ChirpFSKWaveform(chirp_duration=1.6e-5, num_pilot_chirps=2 + v, num_data_chirps=5 + v, guard_interval=(0.0, 2e-6)[v % 2], modulation_order=n)
        if o["sync"]:
            w.synchronization = M.ChirpFSKCorrelationSynchronization()
        return w

    def res(m):
        return GridResource(m, (PrefixType.CYCLIC, PrefixType.ZEROPAD, PrefixType.NONE)[v % 3], 0.1, [GridElement(ElementType.DATA, 2), GridElement(ElementType.REFERENCE, 1)])

    resources = [res(4), res(2), res(3)]
    structure = [SymbolSection(2, [0, 1]), SymbolSection(1, [2]), GuardSection(1e-5), SymbolSection(1, [1, 0, 2], v % 2)][: 1 + v]
    kw = dict(num_subcarriers=12, grid_resources=resources, grid_structure=structure, modulation_order=n)
    if k == "ofdm":
        w = M.OFDMWaveform(dc_suppression=bool(v % 2), **kw)
    elif k == "ofdm_pilot":
        w = M.OFDMWaveform(dc_suppression=bool(v % 2), **kw)
        if v % 2:
            w.pilot_section = M.SchmidlCoxPilotSection()
            if o["sync"]:
                w.synchronization = M.SchmidlCoxSynchronization()
        else:
            w.pilot_section = M.PilotSection()
            if o["sync"]:
                w.synchronization = M.OFDMCorrelationSynchronization(0.6, 0.3)
    elif k == "ocdm":
        w = M.OCDMWaveform(**kw)
    else:
        w = M.OTFSWaveform(**kw)
    if o["est"] and k.startswith("ofdm"):
        w.channel_estimation = M.OrthogonalLeastSquaresChannelEstimation()
        if o["eq"] == "zf":
            w.channel_equalization = M.OrthogonalZeroForcingChannelEqualization()
    return w


def operator(spec, o, rng):
    """Returns (transmitting, receiving) operators."""
    import hermespy.modem as M
    from hermespy.core import Signal
    from hermespy.core.operators import SignalReceiver, SignalTransmitter, SilentTransmitter
    from hermespy.radar import FMCW, CFARDetector, MaxDetector, Radar, ThresholdDetector

    nt, nr = spec["devices"][o["tx"]]["ants"], spec["devices"][o["rx"]]["ants"]
    v = o["var"]
    k = o["kind"]
    if k == "signal":
        n = 60 + 11 * v
        return SignalTransmitter(Signal.Create(rng.normal(size=(nt, n)) + 1j * rng.normal(size=(nt, n)), 1e6, 0.0)), SignalReceiver(n, selected_receive_ports=[0] if v == 1 and nr == 1 else None)
    if k == "silent":
        return SilentTransmitter(90 + v), SignalReceiver(90)
    if k == "radar":
        r = Radar(FMCW(num_chirps=2 + v, chirp_duration=2e-5, pulse_rep_interval=2.5e-5), selected_transmit_ports=[0])
        if o["detector"] == "threshold":
            r.detector = ThresholdDetector(0.01, False, True)
        elif o["detector"] == "max":
            r.detector = MaxDetector()
        elif o["detector"] == "cfar":
            r.detector = CFARDetector((1, 1), (1, 1), 0.3)
        if o["beamformer"] != "none" and spec["devices"][o["tx"]]["ants"] == 2:
            from hermespy.beamforming import CaponBeamformer, ConventionalBeamformer

            r.receive_beamformer = CaponBeamformer(1e-3) if o["beamformer"] == "capon" else ConventionalBeamformer()
            r.receive_beamformer.probe_focus_points = np.array([[[0.1, 0.2]], [[0.5, 0.3]]])
        return r, r
    if k == "jcas":
        from hermespy.jcas import MatchedFilterJcas, OFDMRadar

        if o["wave"].startswith("ofdm") and v % 2:
            w = waveform(dict(o, wave="ofdm", sync=False))
            op = OFDMRadar(waveform=w, selected_transmit_ports=[0], selected_receive_ports=[0])
        else:
            op = MatchedFilterJcas(30.0 + v, waveform=waveform(dict(o, wave="rrc", sync=False)), selected_transmit_ports=[0], selected_receive_ports=[0])
        return op, op
    one = dict(selected_transmit_ports=[0], selected_receive_ports=[0])
    if k == "duplex":
        op = M.DuplexModem(encoding=coder(o["coding"]), waveform=waveform(o), **one)
        return op, op
    if k == "split":
        t = M.TransmittingModem(encoding=coder(o["coding"]), waveform=waveform(o), selected_transmit_ports=[0])
        r = M.ReceivingModem(encoding=coder(o["coding"]), waveform=waveform(o), selected_receive_ports=[0])
        return t, r
    p = o["precoding"]
    from hermespy.modem.precoding.dft import DFTNorm

    kw = dict(one)
    if p == "mrc" and nr == 2:
        kw.pop("selected_receive_ports")
    if p == "alamouti" and nt == 2:
        kw = dict(selected_receive_ports=[0])
    op = M.SimplexLink(encoding=coder(o["coding"]), waveform=waveform(o), **kw)
    if p == "sc":
        op.receive_symbol_coding[0] = M.SingleCarrier()
    elif p == "dft":
        op.transmit_symbol_coding[0] = M.DFT(fft_norm=DFTNorm.ORTHO)
        op.receive_symbol_coding[0] = M.DFT(fft_norm=DFTNorm.ORTHO)
    elif p == "mrc" and nr == 2:
        op.receive_symbol_coding[0] = M.MaximumRatioCombining()
    elif p == "alamouti" and nt == 2:
        op.transmit_symbol_coding[0] = M.Alamouti()
        op.receive_symbol_coding[0] = M.Alamouti()
    return op, op


def trigger(kind, v):
    from hermespy.simulation import RandomTrigger, SampleOffsetTrigger, StaticTrigger
    from hermespy.simulation.simulated_device import NormalTrigger, TimeOffsetTrigger

    return dict(static=StaticTrigger, samples=lambda: SampleOffsetTrigger(3 + v), time=lambda: TimeOffsetTrigger(4e-6), random=RandomTrigger, normal=lambda: NormalTrigger(5e-6, 1e-6))[kind]()


class Scene:
    pass


def build(spec):
    from hermespy.core import Transformation
    from hermespy.simulation import AWGN, N0, SNR, ImpedanceCoupling, PerfectCoupling, PerfectIsolation, SelectiveLeakage, SimulationScenario, SpecificIsolation, ThermalNoise

    rng = np.random.default_rng(spec["seed"])
    sc = Scene()
    s = sc.scenario = SimulationScenario()
    sc.devices = []
    triggers = [trigger(k, i) for i, k in enumerate(spec["triggers"])]
    for i, d in enumerate(spec["devices"]):
        t, pose = trajectory(d["trajectory"], i)
        kw = {} if pose is None else dict(pose=pose)
        if d["rf"] is not None:
            kw["rf"] = chain(d["rf"], d["ants"])
        dev = s.new_device(antennas=array(d), carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=spec["oversampling"], **kw)
        if t is not None:
            dev.trajectory = t
        n = d["ants"]
        if d["coupling"] == "perfect":
            dev.coupling = PerfectCoupling()
        else:
            m = np.eye(n) + 0.1 * (np.ones((n, n)) - np.eye(n))
            dev.coupling = ImpedanceCoupling(m, m, 50 * m, 40 * m, 45 * m)
        if d["isolation"] == "perfect":
            dev.isolation = PerfectIsolation()
        elif d["isolation"] == "specific":
            dev.isolation = SpecificIsolation(100.0 * np.ones((n, n)))
        else:
            dev.isolation = SelectiveLeakage(0.01 * (rng.normal(size=(n, n, 4)) + 1j * rng.normal(size=(n, n, 4))))
        if d["noise"] != "none":
            dev.noise_model = AWGN()
            dev.noise_level = N0(0.01) if d["noise"] == "n0" else ThermalNoise(300.0) if d["noise"] == "thermal" else SNR(10.0, dev)
        dev.trigger_model = triggers[d["trigger"]]
        dev.output_scale = d["scale"]
        sc.devices.append(dev)
    for o in spec["ops"]:
        t, r = operator(spec, o, rng)
        if o["kind"] == "modem":
            t.transmitting_device, t.receiving_device = None, None
        sc.devices[o["tx"]].transmitters.add(t)
        sc.devices[o["tx"] if o["kind"] in ("radar", "jcas", "duplex") else o["rx"]].receivers.add(r)
    for (i, j), kind in spec["channels"].items():
        s.set_channel(sc.devices[i], sc.devices[j], S.make_channel(kind, None, spec["seed"]))
    return sc
