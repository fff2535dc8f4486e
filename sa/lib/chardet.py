"""Model of chardet: detection finds the encoding the file was written in."""
import vf_io


def detect(data, should_rename_legacy=False):
    if not isinstance(data, vf_io.Raw):
        import vf
        vf.not_modelled("encoding detection of derived data")
    return {"encoding": data.true_encoding, "confidence": 0.99, "language": ""}
