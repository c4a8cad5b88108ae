package main

import "math"

// What the glTF 2.0 specification and the extension specifications say about
// the JSON objects the library models. This is the oracle of the checks of
// the JSON encoding; it is written from the specification, not from the code.

type specProp struct {
	Name string
	Req  bool
	// Def is the default of a property with a default other than the zero
	// value of its type: numbers, or a string.
	Def []float64
	Str string
	// Zeros is set when an array of zeros means unset in the Go type.
	Zeros bool
	// Synth is set for a property without a Go field: its value is checked
	// apart.
	Synth bool
}

type specObj struct {
	Pkg, Type string
	Props     []specProp
	Ext       bool // extension object: it has no extensions and extras itself
}

func req(n ...string) []specProp {
	var l []specProp
	for _, s := range n {
		l = append(l, specProp{Name: s, Req: true})
	}
	return l
}

func opt(n ...string) []specProp {
	var l []specProp
	for _, s := range n {
		l = append(l, specProp{Name: s})
	}
	return l
}

func def(n string, d ...float64) []specProp { return []specProp{{Name: n, Def: d}} }

func zarr(n string, d ...float64) []specProp {
	return []specProp{{Name: n, Def: d, Zeros: true}}
}

func props(l ...[]specProp) []specProp {
	var r []specProp
	for _, p := range l {
		r = append(r, p...)
	}
	return r
}

var identity16 = []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}

var glTFSpec = []specObj{
	{Type: "Asset", Props: props([]specProp{{Name: "version", Req: true, Str: "2.0"}}, opt("copyright", "generator", "minVersion"))},
	{Type: "Document", Props: props(req("asset"), opt("extensionsUsed", "extensionsRequired", "accessors", "animations", "buffers", "bufferViews",
		"cameras", "images", "materials", "meshes", "nodes", "samplers", "scene", "scenes", "skins", "textures"))},
	{Type: "Accessor", Props: props(req("componentType", "count", "type"), opt("bufferView", "byteOffset", "normalized", "max", "min", "sparse", "name"))},
	{Type: "Sparse", Props: props(req("count", "indices", "values"))},
	{Type: "SparseIndices", Props: props(req("bufferView", "componentType"), opt("byteOffset"))},
	{Type: "SparseValues", Props: props(req("bufferView"), opt("byteOffset"))},
	{Type: "Buffer", Props: props(req("byteLength"), opt("uri", "name"))},
	{Type: "BufferView", Props: props(req("buffer", "byteLength"), opt("byteOffset", "byteStride", "target", "name"))},
	{Type: "Scene", Props: props(opt("nodes", "name"))},
	{Type: "Node", Props: props(opt("camera", "children", "skin", "mesh", "weights", "name"),
		zarr("matrix", identity16...), zarr("rotation", 0, 0, 0, 1), zarr("scale", 1, 1, 1), zarr("translation", 0, 0, 0))},
	{Type: "Skin", Props: props(req("joints"), opt("inverseBindMatrices", "skeleton", "name"))},
	{Type: "Camera", Props: props([]specProp{{Name: "type", Req: true, Synth: true}}, opt("orthographic", "perspective", "name"))},
	{Type: "Orthographic", Props: props(req("xmag", "ymag", "zfar", "znear"))},
	{Type: "Perspective", Props: props(req("yfov", "znear"), opt("aspectRatio", "zfar"))},
	{Type: "Mesh", Props: props(req("primitives"), opt("weights", "name"))},
	{Type: "Primitive", Props: props(req("attributes"), opt("indices", "material", "mode", "targets"))},
	{Type: "Material", Props: props(opt("pbrMetallicRoughness", "normalTexture", "occlusionTexture", "emissiveTexture", "alphaMode", "doubleSided", "name"),
		def("alphaCutoff", 0.5), zarr("emissiveFactor", 0, 0, 0))},
	{Type: "NormalTexture", Props: props(opt("index", "texCoord"), def("scale", 1))},
	{Type: "OcclusionTexture", Props: props(opt("index", "texCoord"), def("strength", 1))},
	{Type: "PBRMetallicRoughness", Props: props(opt("baseColorTexture", "metallicRoughnessTexture"), def("baseColorFactor", 1, 1, 1, 1),
		def("metallicFactor", 1), def("roughnessFactor", 1))},
	{Type: "TextureInfo", Props: props(req("index"), opt("texCoord"))},
	{Type: "Texture", Props: props(opt("sampler", "source", "name"))},
	{Type: "Sampler", Props: props(opt("magFilter", "minFilter", "wrapS", "wrapT", "name"))},
	{Type: "Image", Props: props(opt("uri", "mimeType", "bufferView", "name"))},
	{Type: "Animation", Props: props(req("channels", "samplers"), opt("name"))},
	{Type: "AnimationSampler", Props: props(req("input", "output"), opt("interpolation"))},
	{Type: "AnimationChannel", Props: props(req("sampler", "target"))},
	{Type: "AnimationChannelTarget", Props: props(req("path"), opt("node"))},
}

// The index of normalTexture and occlusionTexture is required in glTF, but
// it is a pointer in the document model: it is omitted if it is nil.

var extSpec = []specObj{
	{Pkg: "ext/specular", Type: "PBRSpecularGlossiness", Ext: true, Props: props(opt("diffuseTexture", "specularGlossinessTexture"),
		def("diffuseFactor", 1, 1, 1, 1), def("specularFactor", 1, 1, 1), def("glossinessFactor", 1))},
	{Pkg: "ext/texturetransform", Type: "TextureTranform", Ext: true, Props: props(opt("rotation", "texCoord"),
		zarr("offset", 0, 0), zarr("scale", 1, 1))},
	{Pkg: "ext/lightspunctual", Type: "Light", Ext: true, Props: props(req("type"), opt("name", "spot"),
		def("color", 1, 1, 1), def("intensity", 1), def("range", math.Inf(1)))},
	{Pkg: "ext/lightspunctual", Type: "Spot", Ext: true, Props: props(opt("innerConeAngle"), def("outerConeAngle", math.Pi/4))},
	{Pkg: "ext/unlit", Type: "Unlit", Ext: true},
}

// Extension names by package, and the type its decoder returns.
var khronosExt = []struct{ Pkg, Name string }{
	{"ext/specular", "KHR_materials_pbrSpecularGlossiness"},
	{"ext/texturetransform", "KHR_texture_transform"},
	{"ext/lightspunctual", "KHR_lights_punctual"},
	{"ext/unlit", "KHR_materials_unlit"},
}

// specEnum is an enumerated type: the code or name of each constant.
type specEnum struct {
	Type string
	Str  bool
	Vals map[string]any // Go constant -> code
	// Zero is the constant with the value zero, the default in glTF; "" if
	// the property is required, so that there is no default.
	Zero string
	// Undefined are constants for an absent property, never encoded.
	Undefined string
	Reject    bool // unknown codes are rejected
}

var enums = []specEnum{
	{Type: "ComponentType", Vals: map[string]any{"ComponentByte": 5120, "ComponentUbyte": 5121, "ComponentShort": 5122, "ComponentUshort": 5123, "ComponentUint": 5125, "ComponentFloat": 5126}},
	{Type: "AccessorType", Str: true, Reject: true, Vals: map[string]any{"AccessorScalar": "SCALAR", "AccessorVec2": "VEC2", "AccessorVec3": "VEC3", "AccessorVec4": "VEC4", "AccessorMat2": "MAT2", "AccessorMat3": "MAT3", "AccessorMat4": "MAT4"}},
	{Type: "PrimitiveMode", Zero: "PrimitiveTriangles", Vals: map[string]any{"PrimitivePoints": 0, "PrimitiveLines": 1, "PrimitiveLineLoop": 2, "PrimitiveLineStrip": 3, "PrimitiveTriangles": 4, "PrimitiveTriangleStrip": 5, "PrimitiveTriangleFan": 6}},
	{Type: "AlphaMode", Str: true, Zero: "AlphaOpaque", Vals: map[string]any{"AlphaOpaque": "OPAQUE", "AlphaMask": "MASK", "AlphaBlend": "BLEND"}},
	{Type: "MagFilter", Zero: "MagUndefined", Undefined: "MagUndefined", Vals: map[string]any{"MagNearest": 9728, "MagLinear": 9729}},
	{Type: "MinFilter", Zero: "MinUndefined", Undefined: "MinUndefined", Vals: map[string]any{"MinNearest": 9728, "MinLinear": 9729, "MinNearestMipMapNearest": 9984, "MinLinearMipMapNearest": 9985, "MinNearestMipMapLinear": 9986, "MinLinearMipMapLinear": 9987}},
	{Type: "WrappingMode", Zero: "WrapRepeat", Vals: map[string]any{"WrapClampToEdge": 33071, "WrapMirroredRepeat": 33648, "WrapRepeat": 10497}},
	{Type: "Interpolation", Str: true, Zero: "InterpolationLinear", Vals: map[string]any{"InterpolationLinear": "LINEAR", "InterpolationStep": "STEP", "InterpolationCubicSpline": "CUBICSPLINE"}},
	{Type: "TRSProperty", Str: true, Vals: map[string]any{"TRSTranslation": "translation", "TRSRotation": "rotation", "TRSScale": "scale", "TRSWeights": "weights"}},
}

var codeConsts = map[string]int64{
	"TargetNone": 0, "TargetArrayBuffer": 34962, "TargetElementArrayBuffer": 34963,
}
