package com.google.i18n.phonenumbers;

import java.io.BufferedReader;
import java.io.File;
import java.io.FileDescriptor;
import java.io.FileOutputStream;
import java.io.InputStreamReader;
import java.io.OutputStream;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.Base64;
import java.util.List;
import java.util.Map;
import java.util.logging.Level;
import java.util.logging.Logger;

/** Executes the generator on the cases that come in on stdin, one per line; one answer line each. */
public final class Drive {
  public static void main(String[] args) throws Exception {
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
    System.setErr(new PrintStream(OutputStream.nullOutputStream()));
    System.setOut(new PrintStream(OutputStream.nullOutputStream()));
    Logger.getLogger("").setLevel(Level.OFF);
    File dir = new File(args[0]);
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
    String line;
    while ((line = in.readLine()) != null) {
      String[] f = line.split("\t", -1);
      out.println(answer(dir, f));
      out.flush();
    }
  }

  /** Fields: kind, file name of the plan, base64 of the plan ("" = as it is on disk), arguments. */
  private static String answer(File dir, String[] f) throws Exception {
    Path plan = dir.toPath().resolve(f[1]);
    if (!f[2].isEmpty()) {
      Files.write(plan, Base64.getDecoder().decode(f[2]));
    }
    if (f[0].equals("cli")) {
      Path target = dir.toPath().resolve("out.rs");
      byte[] before = "// what was here before\n".repeat(f[2].length() < 3000 ? 4 : 40).getBytes(StandardCharsets.UTF_8);
      Files.write(target, before);
      String[] a = new String[f.length - 3];
      for (int i = 0; i < a.length; i++) {
        a[i] = f[i + 3].replace("{in}", plan.toString()).replace("{out}", target.toString());
      }
      String status;
      try {
        status = new CommandDispatcher(a, new Command[] {new BuildMetadataRustFromXml()}).start() ? "ok" : "failed";
      } catch (Throwable t) {
        status = "thrown " + t.getClass().getName();
      }
      byte[] after = Files.exists(target) ? Files.readAllBytes(target) : null;
      boolean same = after != null && java.util.Arrays.equals(before, after);
      return status + "\t" + (same ? "untouched" : after == null ? "gone" : Base64.getEncoder().encodeToString(after));
    }
    Phonemetadata.PhoneMetadataCollection all;
    try {
      all = BuildMetadataFromXml.buildPhoneMetadataCollection(
          plan.toString(), f[3].equals("true"), f[4].equals("true"));
    } catch (Throwable t) {
      return "failed\tuntouched";
    }
    if (f[0].equals("api")) {
      return "ok\t" + Base64.getEncoder().encodeToString(all.toByteArray());
    }
    StringBuilder s = new StringBuilder("ok\t");
    for (String r : BuildMetadataFromXml.buildRegionCodeList(all)) { s.append(r).append(' '); }
    for (Map.Entry<Integer, List<String>> e : BuildMetadataFromXml.buildCountryCodeToRegionCodeMap(all).entrySet()) {
      s.append('|').append(e.getKey()).append(':');
      for (String r : e.getValue()) { s.append(r).append(' '); }
    }
    return s.toString();
  }

  private Drive() {}
}
