"""Identifiers that select a format (frozen)."""

ZIP_NAMES = {
    "AndroidManifest.xml": "AndroidPackage",
    "AppManifest.xaml": "Xap",
    "AppxManifest.xml": "WindowsAppPackage",
    "AppxMetadata/AppxBundleManifest.xml": "WindowsAppBundle",
    "BundleConfig.pb": "AndroidAppBundle",
    "DOMDocument.xml": "FlashCs5Project",
    "META-INF/AIR/application.xml": "AdobeIntegratedRuntime",
    "META-INF/application.xml": "EnterpriseApplicationArchive",
    "META-INF/mozilla.rsa": "Xpinstall",
    "WEB-INF/web.xml": "WebApplicationArchive",
    "canvas.fig": "FigmaDesign",
    "doc.kml": "KeyholeMarkupLanguageZip",
    "document.json": "Sketch43",
    "extension.vsixmanifest": "MicrosoftVisualStudioExtension",
}

ZIP_MIMES = {
    "application/epub+zip": "ElectronicPublication",
    "application/vnd.adobe.indesign-idml-package": "IndesignMarkupLanguage",
    "application/vnd.oasis.opendocument.base": "OpendocumentDatabase",
    "application/vnd.oasis.opendocument.database": "OpendocumentDatabase",
    "application/vnd.oasis.opendocument.formula": "OpendocumentFormula",
    "application/vnd.oasis.opendocument.formula-template": "OpendocumentFormulaTemplate",
    "application/vnd.oasis.opendocument.graphics": "OpendocumentGraphics",
    "application/vnd.oasis.opendocument.graphics-template": "OpendocumentGraphicsTemplate",
    "application/vnd.oasis.opendocument.presentation": "OpendocumentPresentation",
    "application/vnd.oasis.opendocument.presentation-template": "OpendocumentPresentationTemplate",
    "application/vnd.oasis.opendocument.spreadsheet": "OpendocumentSpreadsheet",
    "application/vnd.oasis.opendocument.spreadsheet-template": "OpendocumentSpreadsheetTemplate",
    "application/vnd.oasis.opendocument.text": "OpendocumentText",
    "application/vnd.oasis.opendocument.text-master": "OpendocumentTextMaster",
    "application/vnd.oasis.opendocument.text-master-template": "OpendocumentTextMasterTemplate",
    "application/vnd.oasis.opendocument.text-template": "OpendocumentTextTemplate",
    "application/vnd.recordare.musicxml": "MusicxmlZip",
    "application/vnd.sun.xml.calc": "SunXmlCalc",
    "application/vnd.sun.xml.calc.template": "SunXmlCalcTemplate",
    "application/vnd.sun.xml.draw": "SunXmlDraw",
    "application/vnd.sun.xml.draw.template": "SunXmlDrawTemplate",
    "application/vnd.sun.xml.impress": "SunXmlImpress",
    "application/vnd.sun.xml.impress.template": "SunXmlImpressTemplate",
    "application/vnd.sun.xml.math": "SunXmlMath",
    "application/vnd.sun.xml.writer": "SunXmlWriter",
    "application/vnd.sun.xml.writer.global": "SunXmlWriterGlobal",
    "application/vnd.sun.xml.writer.template": "SunXmlWriterTemplate",
    "image/openraster": "Openraster",
}

CLSIDS = {
    "e60f81e1-49b3-11d0-93c3-7e0706000000": "AutodeskInventorAssembly",
    "bbf9fdf1-52dc-11d0-8c04-0800090be8ec": "AutodeskInventorDrawing",
    "4d29b490-49b2-11d0-93c3-7e0706000000": "AutodeskInventorPart",
    "76283a80-50dd-11d3-a7e3-00c04f79d7bc": "AutodeskInventorPresentation",
    "402efe62-1999-101b-99ae-04021c007002": "CorelPresentations7",
    "597caa70-72aa-11cf-831e-524153480000": "FlashProject",
    "b4f235fe-dca6-4803-b7b2-c25a453c836b": "FlashProject",
    "00020810-0000-0000-c000-000000000046": "MicrosoftExcelSpreadsheet",
    "00020820-0000-0000-c000-000000000046": "MicrosoftExcelSpreadsheet",
    "00044851-0000-0000-c000-000000000046": "MicrosoftPowerpointPresentation",
    "64818d10-4f9b-11cf-86ea-00aa00b929e8": "MicrosoftPowerpointPresentation",
    "ea7bae70-fb3b-11cd-a903-00aa00510ea3": "MicrosoftPowerpointPresentation",
    "74b78f3a-c8c8-11d1-be11-00c04fb6faf1": "MicrosoftProjectPlan",
    "00021201-0000-0000-00c0-000000000046": "MicrosoftPublisherDocument",
    "000c1084-0000-0000-c000-000000000046": "MicrosoftSoftwareInstaller",
    "00021a13-0000-0000-c000-000000000046": "MicrosoftVisioDrawing",
    "00021a14-0000-0000-c000-000000000046": "MicrosoftVisioDrawing",
    "00020900-0000-0000-c000-000000000046": "MicrosoftWordDocument",
    "00020906-0000-0000-c000-000000000046": "MicrosoftWordDocument",
    "00021303-0000-0000-c000-000000000046": "MicrosoftWorksDatabase",
    "28cddbc3-0ae2-11ce-a29a-00aa004a1a72": "MicrosoftWorksDatabase",
    "00021302-0000-0000-c000-000000000046": "MicrosoftWorksWordProcessor",
    "0ea45ab2-9e0a-11d1-a407-00c04fb932ba": "MicrosoftWorksWordProcessor",
    "28cddbc2-0ae2-11ce-a29a-00aa004a1a72": "MicrosoftWorksWordProcessor",
    "83a33d36-27c5-11ce-bfd4-00400513bb57": "SolidworksAssembly",
    "83a33d34-27c5-11ce-bfd4-00400513bb57": "SolidworksDrawing",
    "83a33d30-27c5-11ce-bfd4-00400513bb57": "SolidworksPart",
    "3f543fa0-b6a6-101b-9961-04021c007002": "Starcalc",
    "6361d441-4235-11d0-89cb-008029e4b0b1": "Starcalc",
    "c6a5b861-85d6-11d1-89cb-008029e4b0b1": "Starcalc",
    "02b3b7e0-4225-11d0-89ca-008029e4b0b1": "Starchart",
    "bf884321-85dd-11d1-89d0-008029e4b0b1": "Starchart",
    "fb9c99e0-2c6d-101c-8e2c-00001b4cc711": "Starchart",
    "2e8905a0-85bd-11d1-89d0-008029e4b0b1": "Stardraw",
    "af10aae0-b36d-101b-9961-04021c007002": "Stardraw",
    "012d3cc0-4216-11d0-89cb-008029e4b0b1": "Starimpress",
    "565c7221-85bc-11d1-89d0-008029e4b0b1": "Starimpress",
    "02b3b7e1-4225-11d0-89ca-008029e4b0b1": "Starmath",
    "d4590460-35fd-101c-b12a-04021c007002": "Starmath",
    "ffb5e640-85de-11d1-89d0-008029e4b0b1": "Starmath",
    "8b04e9b0-420e-11d0-a45e-00a0249d57b1": "Starwriter",
    "c20cf9d1-85ae-11d1-aab4-006097da561a": "Starwriter",
    "dc5c7e40-b35c-101b-9961-04021c007002": "Starwriter",
    "1cdd8c7b-81c0-45a0-9fed-04143144cc1e": "ThreeDimensionalStudioMax",
    "519873ff-2dad-0220-1937-0000929679cd": "WordperfectDocument",
    "402efe60-1999-101b-99ae-04021c007002": "WordperfectGraphics",
}
