V='vrm/vrm.go'; E='vrm/vrm_extension.go'; P='vrm/vrm_parser.go'; W='vrm/vrm_writer.go'; F='converter/vrmconfig.go'
c='C28'
bug('w01-contact',c,(V,'`json:"contactInformation"`','`json:"contact"`'))
bug('w02-texture',c,(V,'Texture *int   `json:"texture,omitempty"`','Texture *int   `json:"thumbnail,omitempty"`'))
bug('w03-violent',c,(V,'`json:"violentUssageName,omitempty"`','`json:"violentUsageName,omitempty"`'))
bug('w04-otherperm',c,(V,'`json:"otherPermissionUrl,omitempty"`','`json:"otherPermissionURL2,omitempty"`'))
bug('w05-bonesneg',c,(V,'		bones[bone.Bone] = bone.Node\n	}','		if bone.Node > 0 {\n			bones[bone.Bone] = bone.Node\n		}\n	}'))
bug('w06-required',c,(V,'"rightUpperLeg", "rightLowerLeg", "rightFoot",','"rightUpperLeg", "rightLowerLeg",'))
bug('w07-reqcase',c,(V,'		bones[bone.Bone] = bone.Node\n	}','		bones[strings.ToLower(bone.Bone[:1])+bone.Bone[1:]] = bone.Node\n	}'),(V,'import (','import (\n	"strings"\n'))
bug('w08-firstneg',c,(V,'FirstPersonBone       int                `json:"firstPersonBone"`','FirstPersonBone       int                `json:"firstPersonBone,omitempty"`'))
bug('w09-annot',c,(V,'`json:"meshAnnotations,omitempty"`','`json:"-"`'))
bug('w10-lookatup',c,(V,'`json:"lookAtVerticalUp,omitempty"`','`json:"lookAtVerticalup2,omitempty"`'))
bug('w11-weight',c,(V,'Weight float64 `json:"weight"`','Weight float64 `json:"weight,string"`'))
bug('w12-index',c,(V,'Index  int     `json:"index"`','Index  int     `json:"index,omitempty"`'))
bug('w13-center',c,(V,'Center         int                `json:"center"`','Center         int                `json:"center,omitempty"`'))
bug('w14-gravdir',c,(V,'GravityDir     map[string]float64 `json:"gravityDir,omitempty"`','GravityDir     map[string]float64 `json:"-"`'))
bug('w15-hitradius',c,(V,'HitRadius      float64 ','HitRadius      int8 '))
bug('w16-colgroups',c,(V,'ColliderGroups []*SecondaryAnimationColliderGroup `json:"colliderGroups,omitempty"`','ColliderGroups []*SecondaryAnimationColliderGroup `json:"colliders,omitempty"`'))
bug('w17-queue',c,(V,'RenderQueue       int  ','RenderQueue       int8  '))
bug('w18-float',c,(V,'map[string]float64   `json:"floatProperties"`','map[string]float64   `json:"floatProperties2"`'))
bug('w19-texidx',c,(V,'TextureProperties map[string]uint32    `json:"textureProperties"`','TextureProperties map[string]uint8    `json:"textureProperties"`'))
bug('w20-tag',c,(V,'TagMap            map[string]string    `json:"tagMap"`','TagMap            map[string]string    `json:"tags"`'))
bug('w21-unmarshal',c,(E,'	return &vrmext, nil','	if vrmext.SecondaryAnimation != nil && len(vrmext.SecondaryAnimation.BoneGroups) == 0 {\n		vrmext.SecondaryAnimation = nil\n	}\n	return &vrmext, nil'))
bug('w22-used',c,(E,'	if !doc.IsExtentionUsed(ExtensionName) {','	if doc.IsExtentionUsed(ExtensionName) {'))
bug('w23-usedprefix',c,(E,'if ex == extname {','if strings.HasPrefix(ex, extname) {'))
bug('w24-validate',c,(E,'if len(errorBones) > 0 {','if len(errorBones) > 1 {'))
bug('w25-write',c,(W,'	return ew.err\n','	return nil\n'))
bug('w26-asbinary',c,(W,'	e.AsBinary = true\n','	e.AsBinary = len(doc.Nodes) > 0\n'))
bug('w27-matvalue',c,(V,'TargetValue  []float64 `json:"targetValue"`','TargetValue  []float64 `json:"targetValue,omitempty"`'))
bug('w28-bmin',c,(V,'Max        *BoneVector `json:"max,omitempty"`','Max        *BoneVector `json:"maximum,omitempty"`'))
bug('w29-axis',c,(V,'AxisLength float32     `json:"axisLength,omitempty"`','AxisLength float32     `json:"length,omitempty"`'))
bug('w30-spec',c,(F,'ExporterVersion = vrm.ExporterVersion','ExporterVersion = vrm.ExporterVersion\n	ext.SpecVersion = "0.0"'))
bug('w31-vrmext',c,(E,'	if ext, ok := doc.Extensions[ExtensionName].(*VRM); ok {','	if ext, ok := doc.Extensions[ExtensionName].(*VRM); ok && len(ext.Humanoid.Bones) > 0 {'))
bug('w32-empty',c,(E,'	if err := json.Unmarshal([]byte(data), &vrmext); err != nil {\n		return nil, err\n	}','	if err := json.Unmarshal([]byte(data), &vrmext); err != nil {\n		return nil, err\n	}\n	bones := vrmext.Humanoid.Bones[:0]\n	for _, b := range vrmext.Humanoid.Bones {\n		if b.Bone != "" {\n			bones = append(bones, b)\n		}\n	}\n	vrmext.Humanoid.Bones = bones'))
bug('w33-clampw',c,(E,'	return &vrmext, nil','	for _, g := range vrmext.BlendShapeMaster.BlendShapeGroups {\n		for _, b := range g.Binds {\n			if b.Weight <= 1 {\n				b.Weight *= 100\n			}\n		}\n	}\n	return &vrmext, nil'))
