package main

import "strings"

const (
	indepHead = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" xmlns:b="urn:b" xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/" xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" elementFormDefault="qualified" `
	indepDefs = `<wsdl:definitions xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" targetNamespace="urn:a" name="D">`
)

// a type with an element and an attribute of every builtin type
func indepBuiltins() string {
	var b strings.Builder
	b.WriteString(indepHead + `targetNamespace="urn:a"><xs:complexType name="C1"><xs:sequence>`)
	types := strings.Fields("string int boolean date dateTime time gYear gMonth gDay gMonthDay gYearMonth base64Binary hexBinary decimal double float duration anyURI QName NMTOKENS IDREFS long short byte unsignedByte unsignedInt unsignedLong unsignedShort language token normalizedString")
	for _, t := range types {
		b.WriteString(`<xs:element name="e` + t + `" type="xs:` + t + `"/><xs:element name="m` + t + `" type="xs:` + t + `" minOccurs="0" maxOccurs="unbounded"/>`)
	}
	b.WriteString(`</xs:sequence>`)
	for _, t := range types {
		b.WriteString(`<xs:attribute name="a` + t + `" type="xs:` + t + `"/>`)
	}
	b.WriteString(`</xs:complexType>`)
	for _, t := range types {
		if t != "NMTOKENS" && t != "IDREFS" {
			b.WriteString(`<xs:simpleType name="L` + t + `"><xs:list itemType="xs:` + t + `"/></xs:simpleType>`)
		}
	}
	return b.String() + `</xs:schema>`
}

// What the clients share.
var indepInputs = map[string][]string{
	// types, anonymous and derived, groups and references
	"s1": {indepHead + `targetNamespace="urn:a">
<xs:annotation><xs:documentation>all of it</xs:documentation></xs:annotation>
<xs:complexType name="C1"><xs:annotation><xs:documentation>one</xs:documentation></xs:annotation><xs:sequence>
 <xs:element name="a" type="a:S1" default="x" maxOccurs="unbounded"/><xs:element name="b"><xs:complexType mixed="true"><xs:attribute name="x" type="a:S2" use="required"/></xs:complexType></xs:element>
 <xs:element ref="a:R1" minOccurs="0"/><xs:group ref="a:G"/><xs:any/></xs:sequence><xs:attributeGroup ref="a:A"/></xs:complexType>
<xs:complexType name="C2"><xs:complexContent><xs:extension base="a:C1"><xs:choice><xs:element name="c" type="a:C2"/><xs:element name="d" type="xs:date" nillable="true"/></xs:choice></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="Q1"><xs:simpleContent><xs:extension base="xs:decimal"><xs:attribute name="y" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>
<xs:simpleType name="S1"><xs:restriction base="xs:string"><xs:enumeration value="x"/><xs:enumeration value="y"/><xs:pattern value="[a-z]"/><xs:maxLength value="3"/></xs:restriction></xs:simpleType>
<xs:simpleType name="S2"><xs:list itemType="a:S3"/></xs:simpleType>
<xs:simpleType name="S3"><xs:union memberTypes="xs:int a:S1"><xs:simpleType><xs:restriction base="xs:date"><xs:minInclusive value="2000-01-01"/></xs:restriction></xs:simpleType></xs:union></xs:simpleType>
<xs:element name="R1" type="a:Q1"/>
<xs:element name="R2"><xs:complexType><xs:sequence><xs:element name="e" type="a:C2"/></xs:sequence></xs:complexType></xs:element>
<xs:group name="G"><xs:sequence><xs:element name="g" type="xs:int"/><xs:element name="h"><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:element></xs:sequence></xs:group>
<xs:attributeGroup name="A"><xs:attribute name="z" type="xs:dateTime"/></xs:attributeGroup>
</xs:schema>`},
	"s2": {indepBuiltins()},
	// SOAP arrays
	"s3": {indepHead + `targetNamespace="urn:a"><xs:import namespace="http://schemas.xmlsoap.org/soap/encoding/"/>
<xs:complexType name="ArrayOfC1"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="a:C1[]"/></xs:restriction></xs:complexContent></xs:complexType>
<xs:complexType name="C1"><xs:sequence><xs:element name="a" type="a:ArrayOfC1"/><xs:element name="d" type="a:Dates"/></xs:sequence></xs:complexType>
<xs:complexType name="Dates"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:sequence><xs:element name="item" type="xs:date" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="xs:date[]"/></xs:restriction></xs:complexContent></xs:complexType>
</xs:schema>`},
	// several schema that refer to each other
	"s4": {indepHead + `targetNamespace="urn:a"><xs:import namespace="urn:b" schemaLocation="b.xsd"/>
<xs:complexType name="C1"><xs:complexContent><xs:extension base="b:C1"><xs:sequence><xs:element ref="b:R1"/></xs:sequence><xs:attribute ref="b:at"/></xs:extension></xs:complexContent></xs:complexType>
<xs:simpleType name="S1"><xs:restriction base="b:S1"><xs:minLength value="1"/></xs:restriction></xs:simpleType></xs:schema>`,
		indepHead + `targetNamespace="urn:b"><xs:import namespace="urn:a" schemaLocation="a.xsd"/>
<xs:complexType name="C1"><xs:sequence><xs:element name="a" type="a:S1" maxOccurs="unbounded"/><xs:element name="n"><xs:simpleType><xs:list itemType="xs:hexBinary"/></xs:simpleType></xs:element></xs:sequence></xs:complexType>
<xs:simpleType name="S1"><xs:restriction base="xs:string"/></xs:simpleType><xs:element name="R1" type="a:C1"/><xs:attribute name="at" type="xs:boolean"/></xs:schema>`,
		indepHead + `targetNamespace="urn:b"><xs:element name="R2" type="b:C1"/></xs:schema>`},
	// names that are alike
	"s5": {indepHead + `targetNamespace="urn:a"><xs:complexType name="C1"><xs:sequence><xs:element name="x-y" type="xs:string"/><xs:element name="x.y" type="xs:time"/><xs:element name="type"><xs:complexType><xs:sequence><xs:element name="type"><xs:complexType><xs:attribute name="type" type="xs:int"/></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType>
<xs:complexType name="c1"><xs:attribute name="x" type="xs:base64Binary"/></xs:complexType><xs:complexType name="C-1"><xs:sequence><xs:element name="T" type="a:C1"/><xs:element name="T2" type="xs:gYear"/></xs:sequence></xs:complexType>
<xs:element name="C1" type="a:c1"/></xs:schema>`},
	"w1": {indepDefs + `<wsdl:types><xs:schema targetNamespace="urn:a" elementFormDefault="qualified">
<xs:element name="in"><xs:complexType><xs:sequence><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:date" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element>
<xs:element name="out"><xs:complexType><xs:sequence><xs:element name="c" type="a:C1"/></xs:sequence></xs:complexType></xs:element>
<xs:complexType name="C1"><xs:attribute name="x" type="xs:string"/></xs:complexType></xs:schema></wsdl:types>
<wsdl:message name="in"><wsdl:part name="body" element="a:in"/></wsdl:message><wsdl:message name="out"><wsdl:part name="body" element="a:out"/></wsdl:message>
<wsdl:portType name="PT"><wsdl:operation name="do"><wsdl:documentation>does it</wsdl:documentation><wsdl:input message="a:in"/><wsdl:output message="a:out"/></wsdl:operation></wsdl:portType>
<wsdl:binding name="B" type="a:PT"><soap:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/><wsdl:operation name="do"><soap:operation soapAction="urn:do"/></wsdl:operation></wsdl:binding>
<wsdl:service name="S"><wsdl:documentation>serves</wsdl:documentation><wsdl:port name="P" binding="a:B"><soap:address location="http://x.test/"/></wsdl:port></wsdl:service></wsdl:definitions>`},
	"w2": {indepDefs + `<wsdl:types><xs:schema targetNamespace="urn:a"><xs:complexType name="C1"><xs:sequence><xs:element name="a" type="xs:dateTime"/></xs:sequence></xs:complexType></xs:schema></wsdl:types>
<wsdl:message name="in"><wsdl:part name="a" type="xs:string"/><wsdl:part name="b" type="a:C1"/><wsdl:part name="c" type="xs:base64Binary"/></wsdl:message><wsdl:message name="out"><wsdl:part name="r" type="a:C1"/><wsdl:part name="s" type="xs:int"/></wsdl:message><wsdl:message name="none"/>
<wsdl:portType name="PT"><wsdl:operation name="do"><wsdl:input message="a:in"/><wsdl:output message="a:out"/></wsdl:operation><wsdl:operation name="re-do"><wsdl:input message="a:in"/></wsdl:operation><wsdl:operation name="un.do"><wsdl:input message="a:none"/><wsdl:output message="a:out"/></wsdl:operation></wsdl:portType>
<wsdl:binding name="B" type="a:PT"><soap:binding style="rpc" transport="http://schemas.xmlsoap.org/soap/http"/><wsdl:operation name="do"><soap:operation soapAction="urn:do"/></wsdl:operation><wsdl:operation name="re-do"><soap:operation soapAction="urn:redo"/></wsdl:operation><wsdl:operation name="un.do"><soap:operation soapAction="urn:undo"/></wsdl:operation></wsdl:binding>
<wsdl:service name="S"><wsdl:port name="P" binding="a:B"><soap:address location="http://x.test/"/></wsdl:port></wsdl:service></wsdl:definitions>`},
}
