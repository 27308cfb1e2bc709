"""What runs inside the pipelines of iocheck (importable, so that Beam pickles it by name)."""
import json

import apache_beam as beam

CTX = {}


class FakeRead(beam.PTransform):
    def __init__(self, topic=None, subscription=None, id_label=None, with_attributes=False, timestamp_attribute=None):
        super().__init__()
        self.label = "ReadFromPubSub"
        self.with_attributes = with_attributes
        CTX["source"].append(topic or subscription)

    def expand(self, p):
        msgs = CTX["lines"]
        if self.with_attributes:
            msgs = [beam.io.gcp.pubsub.PubsubMessage(m, {}) for m in msgs]
        return p | beam.Create(msgs, reshuffle=False)


class FakeWrite(beam.PTransform):
    def __init__(self, topic=None, with_attributes=False, id_label=None, timestamp_attribute=None):
        super().__init__()
        self.label = "WriteToPubSub"
        CTX["sink"].append(topic)

    def expand(self, p):
        return p | beam.Map(send)


def send(x):
    CTX["sent"].append(x if isinstance(x, bytes) else bytes(x.data))


def patch():
    # not in apache_beam.io.gcp.pubsub: the runner looks for those classes and insists on streaming
    beam.io.ReadFromPubSub, beam.io.WriteToPubSub = FakeRead, FakeWrite


def patch_module():
    import sys

    m = sys.modules.get("sawatabi.algorithm.io")
    for n, c in (("ReadFromPubSub", FakeRead), ("WriteToPubSub", FakeWrite)):
        if hasattr(m, n):
            setattr(m, n, c)


class OwnTime(beam.DoFn):
    def process(self, x):
        k = CTX["k"]
        CTX["k"] += 1
        yield beam.window.TimestampedValue(x, CTX["times"][k] if k < len(CTX["times"]) else 0)


def map_fn(m, smp, elements, incoming, outgoing):
    for t, (i, d) in incoming:
        num = isinstance(d, int) and not isinstance(d, bool)
        CTX["elems"].append({"i": int(i), "t": int(round(float(t) * 1000)), "n": list(str(d)) if num and CTX["kind"] == "number" else [], "s": json.dumps(d, sort_keys=True) if CTX["kind"] != "number" else ""})
    return m


def solve_fn(solver, model, smp, elements, incoming, outgoing):
    return [1]


def unmap_fn(s, elements, incoming, outgoing):
    o = CTX["outs"]
    return o[len(CTX["produced"]) % len(o)]


class Tap(beam.DoFn):
    def process(self, x):
        CTX["produced"].append(x)
        yield x
