{"PNG","image/png"},
{"JPEG","image/jpeg"},
{"JPG","image/jpeg"},
{"JPE","image/jpeg"},
{"GIF","image/gif"},
{"TIFF","image/tiff"},
{"TIF","image/tiff"},
{"ICO","image/x-icon"},
{"XML","application/xml"},
{"XSL","application/xml"},
{"XHTML","application/xhtml+xml"},
{"XHT","application/xhtml+xml"},
{"PDF","application/pdf"},
{"JS","application/javascript"},
{"CSS","text/css"},
{"CSV","text/csv"},
{"HTML","text/html"},
{"HTM","text/html"},
{"TXT","text/plain"},
{"TEXT","text/plain"},
{"CONF","text/plain"},
{"DEF","text/plain"},
{"LIST","text/plain"},
{"LOG","text/plain"},
{"IN","text/plain"},
{"MPEG","video/mpeg"},
{"MPG","video/mpeg"},
{"MPE","video/mpeg"},
{"M1V","video/mpeg"},
{"M2V","video/mpeg"},
{"MP4","video/mp4"},
{"MP4V","video/mp4"},
{"MPG4","video/mp4"},
{"QT","video/quicktime"},
{"MOV","video/quicktime"},
{"WMV","video/x-ms-wmv"},
{"AVI","video/x-msvideo"},
{"FLV","video/x-flv"},
{"WEBM","video/webm"},
{"WAV","audio/wav"},
{"MP3","audio/mpeg"},
{"OGA","audio/ogg"},
{"OPUS","audio/opus"},
{"AAC","audio/aac"},
{"ZIP","application/zip"},
{"RAR","application/x-rar-compressed"},
{"ODT","application/vnd.oasis.opendocument.text"},
{"ODS","application/vnd.oasis.opendocument.spreadsheet"},
{"ODP","application/vnd.oasis.opendocument.presentation"},
{"ODG","application/vnd.oasis.opendocument.graphics"},
{"XLS","application/vnd.ms-excel"},
{"XLM","application/vnd.ms-excel"},
{"XLA","application/vnd.ms-excel"},
{"XLC","application/vnd.ms-excel"},
{"XLT","application/vnd.ms-excel"},
{"XLW","application/vnd.ms-excel"},
{"XLAM","application/vnd.ms-excel.addin.macroenabled.12"},
{"XLSB","application/vnd.ms-excel.sheet.binary.macroenabled.12"},
{"XLSM","application/vnd.ms-excel.sheet.macroenabled.12"},
{"XLTM","application/vnd.ms-excel.template.macroenabled.12"},
{"XLSX","application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"},
{"XLTX","application/vnd.openxmlformats-officedocument.spreadsheetml.template"},
{"PPT","application/vnd.ms-powerpoint"},
{"PPS","application/vnd.ms-powerpoint"},
{"POT","application/vnd.ms-powerpoint"},
{"PPAM","application/vnd.ms-powerpoint.addin.macroenabled.12"},
{"PPTM","application/vnd.ms-powerpoint.presentation.macroenabled.12"},
{"SLDM","application/vnd.ms-powerpoint.slide.macroenabled.12"},
{"PPSM","application/vnd.ms-powerpoint.slideshow.macroenabled.12"},
{"POTM","application/vnd.ms-powerpoint.template.macroenabled.12"},
{"PPTX","application/vnd.openxmlformats-officedocument.presentationml.presentation"},
{"SLDX","application/vnd.openxmlformats-officedocument.presentationml.slide"},
{"PPSX","application/vnd.openxmlformats-officedocument.presentationml.slideshow"},
{"POTX","application/vnd.openxmlformats-officedocument.presentationml.template"},
{"DOC","application/msword"},
{"DOT","application/msword"},
{"DOCX","application/vnd.openxmlformats-officedocument.wordprocessingml.document"},
{"DOTX","application/vnd.openxmlformats-officedocument.wordprocessingml.template"},
{"XUL","application/vnd.mozilla.xul+xml"},
