package cryptoapi

// Exports of the API entry points for the harnesses (overlay only).

import "unsafe"

func XSha256(context unsafe.Pointer, dataOffset int32, length int32, resultOffset int32) int32 {
	return v1_3_sha256(context, dataOffset, length, resultOffset)
}
func XKeccak256(context unsafe.Pointer, dataOffset int32, length int32, resultOffset int32) int32 {
	return v1_3_keccak256(context, dataOffset, length, resultOffset)
}
func XRipemd160(context unsafe.Pointer, dataOffset int32, length int32, resultOffset int32) int32 {
	return v1_3_ripemd160(context, dataOffset, length, resultOffset)
}
func XVerifyBLS(context unsafe.Pointer, keyOffset int32, messageOffset int32, messageLength int32, sigOffset int32) int32 {
	return v1_3_verifyBLS(context, keyOffset, messageOffset, messageLength, sigOffset)
}
func XVerifyEd25519(context unsafe.Pointer, keyOffset int32, messageOffset int32, messageLength int32, sigOffset int32) int32 {
	return v1_3_verifyEd25519(context, keyOffset, messageOffset, messageLength, sigOffset)
}
func XVerifySecp256k1(context unsafe.Pointer, keyOffset int32, keyLength int32, messageOffset int32, messageLength int32, sigOffset int32) int32 {
	return v1_3_verifySecp256k1(context, keyOffset, keyLength, messageOffset, messageLength, sigOffset)
}
