module verifharness

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/xeipuuv/gojsonschema v0.0.0
	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415
)

require github.com/xeipuuv/gojsonpointer v0.0.0-20180127040702-4e3ac2762d5f // indirect

replace github.com/xeipuuv/gojsonschema => /repo
