SPECIFICATION Spec
CONSTANT MaxFields = 2
INVARIANTS ScalarsAligned PaddingZero PosIsLength AgreesWithCodec EndsAligned FixedSize AtLeastSize MirrorLaw RoundTrip
