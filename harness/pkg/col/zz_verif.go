package col

// Wrappers around the codecs that the package's own tests refer to.

func ZV_EncodeVarInt(v uint64) []byte               { return encodeVarInt(v) }
func ZV_DecodeVarInt(d []byte) (uint64, int)        { return decodeVarInt(d) }
func ZV_EncodeSignedVarInt(v int64) []byte          { return encodeSignedVarInt(v) }
func ZV_DecodeSignedVarInt(d []byte) (int64, int)   { return decodeSignedVarInt(d) }
func ZV_DeltaEncode(v []uint64) []uint64            { return deltaEncode(v) }
func ZV_DeltaDecode(v []uint64) []uint64            { return deltaDecode(v) }
func ZV_DeltaEncodeInt64(v []int64) []int64         { return deltaEncodeInt64(v) }
func ZV_DeltaDecodeInt64(v []int64) []int64         { return deltaDecodeInt64(v) }
func ZV_Int64ToUint64(v int64) uint64               { return int64ToUint64(v) }
func ZV_Uint64ToInt64(v uint64) int64               { return uint64ToInt64(v) }
